# One entry per property.

prop('C01', 'Layered merge: the last layer that sets a field wins',
  'Merging a sequence of documents or components into a target gives every exported field the value of the last layer in which it is set (non-zero), and leaves it as it was where no layer sets it; absent layers change nothing. '
  "Nested components merge field by field in the same way, a transform's configuration, resource and secret maps merge key by key with the later key winning, and a dataset keeps the first identifier it was given. "
  'The document marker and version count of a dataset are never changed by merging.',
  ['inputs', 'histories'], 'every target, every number of layers and every combination of set and unset fields',
  'The tests merge one or two hand-written layers; the guarantee is over every subset of fields in every number of layers.',
  ['dataset.go', 'commit.go', 'meta.go', 'structure.go', 'transform.go', 'readme.go', 'viz.go', 'stats.go'],
  [('Assign of the dataset and of each component', 'dataset.go Assign; commit.go, meta.go, structure.go, transform.go, readme.go, viz.go, stats.go Assign')],
  'Every field of every component: proved for all layer counts by loop invariants (postconditions tagged C01). Assumes layers are distinct objects from the target; the executable oracle compares with a reflective reference merge on random documents (bounded).')

prop('C02', 'Merging never writes to the documents it merges from',
  'Merging documents or components into a target never changes any of the source documents, their components or their maps, neither during the merge nor by a later merge into the same target. '
  'After a merge, a component the target did not have before is an object of its own and not the one of a layer.',
  ['inputs', 'histories'], 'every target and sequence of layers, and every sequence of merges into one target',
  'Tests look at the result of a merge; aliasing shows only when a target is merged into again and a source is inspected afterwards.',
  ['dataset.go', 'transform.go', 'commit.go', 'meta.go', 'structure.go', 'readme.go', 'viz.go', 'stats.go'],
  [('copying of components when merging', 'dataset.go Assign'), ('key by key merging of transform maps', 'transform.go Assign')],
  'Frame conditions (modifies clauses) proved for every Assign: only the target, its own components and its own maps change; freshness of new components and maps is a postcondition. Assumes the target shares no component or map with a layer before the merge. Values inside free-form maps, slices and schemas stay shared and are outside the statement.',
  assumptions=['the target shares no component or transform map with a layer before the merge'])

prop('C03', 'A component with content is never encoded as a bare path',
  'Encoding a component or dataset to JSON gives the bare path string only when a path is set and every other content field is unset; as soon as any content field is set the object form with that content is produced. '
  'A component is reported empty exactly when none of its content fields is set.',
  ['inputs'], 'every combination of set and unset fields of every component',
  'A test that sets three fields cannot tell that a fourth is missing from the emptiness condition; losing it silently drops user content from storage.',
  ['dataset.go', 'commit.go', 'meta.go', 'structure.go', 'transform.go', 'readme.go', 'viz.go', 'stats.go'],
  [('IsEmpty of each component', '*.go IsEmpty'), ('MarshalJSON choosing between path and object', '*.go MarshalJSON')],
  'IsEmpty proved equal to the conjunction over the content fields of each component; MarshalJSON/MarshalJSONObject round-trip lemmas use an axiomatised encoding/json. Paths, kind markers and transient dataset fields are not content. Oracle sets every single field and random subsets (bounded).')

prop('C04', 'JSON encoding of documents and components round trips',
  'A dataset, or any of its components, encoded to JSON and decoded again has the same value in every stored field, including nested components and the free-form metadata fields, whatever subset of fields is set. '
  'Decoding a bare string gives a reference carrying that path and nothing else.',
  ['inputs'], 'every document and component with valid UTF-8 text and JSON-representable free-form values',
  'Tests decode a few stored documents; hand-written encoders copy field by field, and a forgotten field shows only in a document that sets it.',
  ['dataset.go', 'commit.go', 'meta.go', 'structure.go', 'transform.go', 'readme.go', 'viz.go', 'stats.go'],
  [('hand-written MarshalJSON, MarshalJSONObject and UnmarshalJSON', '*.go')],
  'Round-trip lemma functions (lemmas/) proved over the real MarshalJSON/UnmarshalJSON bodies; encoding/json itself is axiomatised per struct type from its tags. The kind marker, which encoding fills in, secrets, the run-time only body and open files, and the path of readme and viz object forms are outside the statement.',
  assumptions=['encoding/json implements the round-trip laws given by struct tags (gocv/json.go)'])

prop('C05', 'Dropping transient or derived values drops exactly those',
  'Dropping transient values clears exactly the transient values of a document or component (storage paths, inline body and text, run-time names, secrets) and dropping derived values clears exactly the values computed from others (paths, kind markers, and the checksum, depth, counts and length of a structure). '
  'Every other field keeps its value, and for a dataset the derived values of all its components are dropped with its own.',
  ['inputs'], 'every document and component in every state',
  'Tests compare a few documents; the claim covers each field of each component, cleared or kept.',
  ['dataset.go', 'commit.go', 'meta.go', 'structure.go', 'transform.go', 'readme.go', 'viz.go', 'stats.go'],
  [('DropTransientValues and DropDerivedValues', '*.go')],
  'Postconditions give the cleared fields, modifies clauses prove nothing else changes; the oracle compares field by field by reflection (bounded).')

prop('C06', 'Secrets of a transform are never encoded',
  'No JSON encoding of a transform, or of a dataset that holds one, depends on the values or names of its secrets: two transforms that differ only in their secrets encode to the same bytes. '
  'Dropping the transient values of a transform leaves it without secrets.',
  ['inputs'], 'every transform, alone and inside a dataset, with any secrets',
  'A leak needs only one field more in an encoder; tests do not look for what must be absent.',
  ['transform.go', 'dataset.go'],
  [('field list of the transform encoder', 'transform.go MarshalJSON, MarshalJSONObject, DropTransientValues')],
  'Non-interference proved as a two-run lemma over the real encoder (the encoding of two transforms that agree on everything but the secrets is the same term), over an axiomatised encoding/json.',
  assumptions=['encoding/json encodes a struct as a function of its tagged fields'])

prop('C07', 'Signing bytes are exactly the signed parts, in a fixed order',
  "The bytes to sign for a dataset have one line for each part that is set, in one fixed order: the identifier, then the body path, the commit time, and the paths of meta, readme, structure, transform, stats and viz, each under its own component's label; parts that are unset contribute nothing, and nothing else influences the bytes. "
  'The signable bytes are the commit time and the structure checksum, and asking for them without commit or structure is an error and not a crash. '
  'Times are written in UTC with second precision, whatever zone they carry.',
  ['inputs'], 'every dataset, with every subset of its parts set',
  'Tests fix one dataset; which parts are signed, and what is left out, ranges over all subsets of parts.',
  ['dataset.go'],
  [('SigningBytes and SignableBytes', 'dataset.go')],
  'Exact functional postconditions over the real code with string concatenation terms (fmt.Sprintf and strings.Join interpreted by the verifier, time formatting uninterpreted).')

prop('C08', 'The path map lists exactly the referenced components',
  "The path map of a dataset has an entry for each component that is present, holding that component's path under the component's key, and one each for the body and the dataset itself when they have a path; keys in the ignore list are left out and there are no other entries. "
  'A missing dataset has an empty path map.',
  ['inputs'], 'every dataset and every ignore list',
  'Tests look at one dataset; the claim is over all subsets of components and ignore lists.',
  ['dataset.go'],
  [('PathMap', 'dataset.go')],
  'Map-valued postcondition (presence and value for every key) proved for all ignore-list lengths.')

prop('C09', 'Names of formats, compressions, kinds and types decode back',
  'Each known data format, compression and value type has one canonical name, and parsing that name, or decoding its JSON form, gives the same value back; each alias parses to its one value and every other name is an error. '
  'Unknown data formats refuse to encode, and a kind tag splits into its type and version parts without loss.',
  ['inputs'], 'every string and every code, known or not',
  'Tests list the names they know; the claim is also about all other strings and codes.',
  ['data_format.go', 'kind.go', 'vals/vals.go', 'compression/compression.go'],
  [('String, Parse and MarshalJSON', 'data_format.go; vals/vals.go; compression/compression.go; kind.go')],
  'Exact tables as postconditions over all strings/codes; round trip as lemmas.')

prop('C10', 'Format configuration survives its map form',
  'The options of a data format converted to their map form and parsed back give the same options, for every combination of options; options read from a map take exactly the keys that format defines. '
  'A value of the wrong type is an error and never a crash or a silent default.',
  ['inputs', 'configurations'], 'every combination of options and every map of option values',
  'Tests use one configuration per format; the separator alone has over a million values.',
  ['data_format_config.go'],
  [('NewCSVOptions, Map and the other formats\' options', 'data_format_config.go')],
  'Postconditions for every option map and round-trip lemmas; runes as integers with an axiomatised UTF-8 decoding.')

prop('C11', 'Generated column names are distinct',
  'Every column position has exactly one generated name: the name is non-empty, made of lowercase letters only, and two different positions never get the same name.',
  ['inputs'], 'every non-negative position, without bound',
  'A collision needs a wide table: tests try the first few dozen names.',
  ['structure.go'],
  [('AbstractColumnName', 'structure.go')],
  'Injectivity proved for all positions: the name has a numeric value (a ghost function defined by recursion on the name) and the postcondition says it is the position plus one; the lemma on two positions follows.')

prop('C19', 'Compression names select the codec that reads the data back',
  'Data written through the compressor of a name is a stream of that name\'s codec, and the decompressor of the same name or of an alias of it reads back exactly the bytes written; unknown names are errors on both sides. '
  'A body whose structure names a compression holds exactly the compressed form of the body it would hold without, and reads back the same entries; without a compression it is passed through untouched.',
  ['inputs', 'configurations'], 'every compression name and every body, for each body format that can be compressed',
  'Tests use one name per codec and one small body; a swapped codec, a missing alias or a lost final flush shows in other combinations.',
  ['compression/compression.go', 'dsio/dsio.go', 'dsio/csv.go', 'dsio/json.go', 'dsio/ndjson.go', 'dsio/cbor.go'],
  [('Compressor, Decompressor, ParseFormat', 'compression/compression.go'), ('wrapping of body readers and writers', 'dsio/dsio.go maybeWrapCompressor, maybeWrapDecompressor')],
  'Selection of the codec and what it is attached to proved for every name; the codecs (klauspost gzip, zstd) are trusted, flushing and the four body formats are exercised by the bounded oracle.',
  assumptions=['klauspost gzip and zstd decode what they encode'])

prop('C26', 'Opening or inlining a file prefers inline content over paths',
  'Opening the body or the script of a component uses the inline content when there is any, else fetches exactly its path once from the given resolver, else opens nothing; without a resolver a needed fetch is an error, and a failed fetch or read leaves text and path as they were. '
  'Inlining a script leaves its full content as text and forgets the path only when it has the content.',
  ['inputs', 'fault_sequences'], 'every combination of inline content, path and resolver, with a resolver that may fail',
  'The combinations of content, path, resolver and failure are more than the tests try, and a lost path is silent.',
  ['dataset.go', 'transform.go', 'readme.go', 'viz.go'],
  [('OpenBodyFile, OpenScriptFile, InlineScriptFile, OpenRenderedFile', 'dataset.go; transform.go; readme.go; viz.go')],
  'Exact postconditions with ghost state for fetches and for the content of opened files; the resolver is an arbitrary interface, in-memory files are given by an assumed contract.',
  assumptions=['qfs in-memory files read back the bytes they are made of', 'reading a file to its end gives its content'])
prop('C12', 'A page is exactly the entries from offset on, up to limit',
  'Reading a page with an offset and a limit from any entry reader gives the entries of that reader from the offset on, in order and unchanged, at most limit of them and fewer only when the reader ends first; once the limit is reached the end is reported and nothing more is read from the reader. '
  'An error of the reader, also one met while skipping to the offset, is reported at its place and never skipped or turned into the end.',
  ['inputs', 'fault_sequences'], 'every reader, offset and non-negative limit, and every position at which the reader ends or fails',
  'Tests page over one short body; off-by-one errors at the borders, and errors while skipping, depend on how offset, limit and length meet.',
  ['dsio/streams.go', 'dsio/dsio.go'],
  [('PagedReader', 'dsio/streams.go'), ('pages of converted files', 'dsio/dsio.go ConvertFile')],
  'Postconditions of PagedReader.ReadEntry for an arbitrary reader (the k-th entry and error of a reader are uninterpreted functions of k), and lemma functions for a whole page read with ReadAllArray and copied with Copy, by loop invariants with no bound. A negative limit, which means no limit, is outside the statement.',
  assumptions=['readers hand out one entry or error per call'])

prop('C13', 'Copying and converting streams loses, adds and reorders nothing',
  'Copying an entry reader to a writer, collecting it into an array or object, and iterating over it handle every entry once, in order, with key and value unchanged, until the reader ends; for repeated keys of an object the last one wins. '
  'An error of the reader or the writer stops the operation and is reported, never taken for the end of the data. '
  'Converting a file from one format, compression or format configuration to another gives a body that reads back as the same entries.',
  ['inputs', 'fault_sequences', 'configurations'], 'every reader and writer, of any length and failing anywhere; every pair of formats',
  'Tests convert one small file between a few formats; a swallowed error or an entry lost at a border needs a failing source or a particular length.',
  ['dsio/dsio.go', 'dsio/entry.go', 'dsio/streams.go', 'dsio/tracked_reader.go', 'dsio/entry_buffer.go'],
  [('ReadAll, ReadAllArray, ReadAllObject, ConvertFile', 'dsio/dsio.go'), ('EachEntry', 'dsio/entry.go'), ('Copy', 'dsio/streams.go')],
  'Copy, ReadAll*, EachEntry and TrackedReader proved for arbitrary readers and writers with loop invariants; ConvertFile over the concrete formats is exercised by the bounded oracle.',
  assumptions=['readers hand out one entry or error per call; the log does nothing'])

prop('C17', 'Newline-delimited JSON bodies: one line per entry, none lost',
  'A newline-delimited JSON writer writes each entry as one line of JSON, and a reader of that body gives back the same values, numbered from zero, however the bytes arrive and with or without a newline after the last line. '
  'A line that is not one JSON value is an error at its place, and the end is reported only when nothing but space is left; a failing source is never taken for the end. '
  'Anything but an array cannot be read in this format.',
  ['inputs', 'fault_sequences'], 'every sequence of JSON values, every text, and every way the bytes are split',
  'Tests read one file in one piece; lost last lines and long lines need other bodies and other buffer splits.',
  ['dsio/ndjson.go'],
  [('NDJSONReader and NDJSONWriter', 'dsio/ndjson.go')],
  'Postconditions of reader and writer in terms of the text left and the text written, and round-trip lemmas per entry; bufio line splitting and encoding/json are axiomatised, number formatting is theirs. The oracle compares with encoding/json per line (bounded).',
  assumptions=['bufio.Reader.ReadBytes splits at newlines', 'encoding/json decodes what it encodes, and encodes without newlines'])

prop('C23', 'Columns read from a tabular schema describe every column',
  'For a schema of a table (an array of arrays with an item list) the columns are one per item, in order: the title, type or types and description given by the item where they are strings, else a default title by position and type string; every other key of the item is kept as validation, and every column has at least one type. '
  'A schema without that shape is an error that can be recognised as an invalid tabular schema. The schema is never changed. '
  'Titles are valid exactly when all are identifiers and no two are equal.',
  ['inputs'], 'every decoded JSON schema, of any width, and every list of titles',
  'Tests use a handful of schemas; ill-typed items anywhere must neither panic nor shift columns.',
  ['tabular/tabular.go'],
  [('ColumnsFromJSONSchema, Columns, ColType', 'tabular/tabular.go')],
  'Per-column postconditions with loop invariants over items and over the keys of each item, for every schema; the exact list of types of an item that gives several is left to the bounded oracle (proved: at least one type). The JSON form of ColType is exercised by the oracle.')

prop('C16', 'CSV bodies keep every row and cell, typed by their column',
  'A CSV body written from rows of a table has one record per row in order, after the title row exactly when the configuration asks for one, and reads back as the same rows: cells of integer, number and boolean columns as those types where the text is of that type, text otherwise, and a row of one empty cell is kept. '
  'Separator, lazy quotes and variadic fields of the configuration are applied. '
  'A row that cannot be written in CSV and a failing sink are errors; a failing source is never taken for the end.',
  ['inputs', 'configurations', 'fault_sequences'], 'every table, column typing and CSV configuration, and every failing sink and source',
  'Tests write a few rows of plain text; typing, quoting, header and option interplay, and errors of the sink at the last flush, need other cells and configurations.',
  ['dsio/csv.go', 'vals/type.go', 'tabular/tabular.go'],
  [('CSVReader, CSVWriter', 'dsio/csv.go'), ('ParseNumber, ParseInteger, ParseBoolean', 'vals/type.go')],
  'Postconditions of reader, cell decoding, cell encoding and writer with ghost state for the records read and written; number text conversion and encoding/csv quoting are assumed, and exercised end to end by the bounded oracle.',
  assumptions=['encoding/csv reads back the records it writes (cells without carriage returns)', 'strconv formats and parses numbers inversely'])

prop('C18', 'Reading CSV treats a lone carriage return as a line end and changes nothing else',
  'The carriage return filter before the CSV reader passes every byte of the source in order, adds a newline after exactly those carriage returns that are not followed by one, and nothing else, whatever the sizes of the reads and of the buffer. '
  'It never gives more bytes than asked for, and reports the end or the error of its source only after all bytes before it.',
  ['inputs', 'fault_sequences'], 'every source, read size and buffer size, and every place where the source ends or fails',
  'A carriage return at the border of a read or buffer, or as the last byte, is met only with particular sizes.',
  ['dsio/replacecr/replace_cr.go'],
  [('crlfReplaceReader', 'dsio/replacecr/replace_cr.go')],
  'Read proved by loop invariants over all sources and sizes: each byte given equals the byte of a defined expansion of the source at that position; the buffered reader underneath is given by an assumed contract (a source that has ended or failed stays so).',
  assumptions=['bufio.Reader hands over its source\'s bytes in order', 'a source that has ended or failed stays so'])

prop('C14', 'JSON bodies carry every entry and value unchanged, or report an error',
  'Any well-formed JSON array or object is read as its elements or members, in order, each with its key or its position: null, booleans, strings with all escapes of the JSON grammar replaced, numbers with a point or exponent as floats, other numbers as int64 or, where they do not fit, as floats, nested arrays and objects; whatever the white space, and wherever the source and the buffer split the text. '
  'The end is reported only at the closing bracket: a body that is cut off or fails, a missing separator, or a top level of the other kind is an error, never a shorter body, and no input makes the reader panic. '
  'A JSON body written from entries, plain or indented, is valid JSON that reads back as the same entries. Writing an empty key, one key twice, or a value that has no JSON form is an error and leaves what is written as it was.',
  ['inputs', 'fault_sequences'], 'every JSON body, every position where it is cut or fails, every way its bytes are split and every buffer size, every damaged text',
  'Tests read a few samples; escapes, numbers and white space falling across buffer borders, surrogate pairs and truncation positions are endless.',
  ['dsio/json.go'],
  [('JSONReader, JSONWriter', 'dsio/json.go')],
  'Exact postconditions of every function of the reader over the bytes of the source by position: what each token, string, number, array, object and entry is, where it ends, and that the end is reported at the closing bracket only; loop invariants over the growing buffer; recursion by its own contract, so contents nested deeper than one level are compared by the oracle only. Escapes of code points are proved free of panics and decoded exactly only in the oracle. The writer is proved to frame the encodings encoding/json gives (plain; indented output is checked by the oracle). Text that is not JSON and yet read without an error (a character that starts no value reads as null, a comma before a closing bracket) is outside the statement.',
  assumptions=['encoding/json encodes a value as JSON that stands for it', 'bufio.Reader hands over its source\'s bytes in order and keeps at least 16 of them', 'strconv parses numbers as the grammar says'])

prop('C15', 'CBOR bodies carry every entry and value unchanged, or report an error',
  'A CBOR body written from entries reads back as the same entries: null, booleans, integers (as int64, or uint64 above its range), floats, text, byte strings, and arrays and objects of these nested within the entries, in order, and for objects each under its key. Writing an empty key, or one key twice, is an error, and the same entries of an object give the same bytes in whatever order they are written. '
  'Every well-formed CBOR encoding of such a body is read as what it stands for: any width of heads, definite and indefinite lengths, half, single and double floats, and tags before a value, which are passed over. '
  'A body that is cut off, that fails, or whose top level is of the other kind is an error at its place, never a shorter body, however the bytes arrive.',
  ['inputs', 'fault_sequences'], 'every body of entries of these values, every encoding of it, every position where it is cut or fails, and every way its bytes are split; nested as deep as memory allows',
  'Tests decode a few samples in one encoding; widths, nesting, buffer borders and truncation positions are endless, and a misread length shifts everything after it.',
  ['dsio/cbor.go'],
  [('CBORReader, CBORWriter', 'dsio/cbor.go')],
  'Exact postconditions of every reading function over the bytes of the source by position (heads, arguments, lengths, scalars, strings, float widths), with loop invariants for arrays, maps and chunks; recursion by its own contract, so nested contents are related structurally by the oracle only. The encoder of the writer is a dependency: proved are the entries handed to it, its canonical mode, and errors. What follows the top-level value, simple values other than false, true and null, and misplaced breaks are outside the statement.',
  assumptions=['ugorji codec encodes a value as CBOR that stands for it, canonically when told to', 'bufio.Reader hands over its source\'s bytes in order'])

prop('C24', 'Validation accepts exactly what is valid and names the row of every error',
  'A dataset is accepted exactly when it is absent, or has a commit whose title is at most 100 bytes long and no structure or a valid one; a structure is valid exactly when its format is one of the known names and it has a schema; a name is valid exactly when it starts with a letter, consists of letters, digits and underscores and is at most 144 characters long. '
  'CSV text is accepted exactly when it can be read, has at least one row, and every row has as many cells as the first. '
  'Validating a body checks every entry against the schema exactly once, whatever the number of entries; the errors are those of the schema for the entries, each naming the row of the body it is in, and an error of the reader is reported and never taken for the end of the body.',
  ['inputs', 'fault_sequences'], 'every dataset, name and CSV text; every body of any length, error positions and failing readers',
  'Bodies are validated in batches of thousands of rows: tests with a handful of rows never cross a border, where rows can be lost, checked twice or numbered wrongly.',
  ['validate/validate.go', 'validate/dataset.go', 'validate/csv.go', 'validate/data.go', 'dsio/entry.go', 'dsio/entry_buffer.go'],
  [('Dataset, Structure, Commit, Schema and ValidName', 'validate/dataset.go, validate/validate.go'), ('CheckCsvRowLengths', 'validate/csv.go'), ('EntryReader in batches', 'validate/data.go')],
  'Exact acceptance conditions proved as postconditions; EntryReader proved with a loop invariant over batches for any number of entries (each entry in one batch, errors of batch k shifted by k times the batch size). The regular expression engine, encoding/csv and the JSON schema validator are external: which texts a pattern matches and which errors a document has are uninterpreted; the batch text is the text of a JSON entry buffer (C14). Schema keywords about the whole body (numbers of entries, required keys) are applied per batch and are outside the statement for bodies of more than one batch.',
  assumptions=['regexp, encoding/csv and jsonschema behave as documented', 'a new entry buffer is empty and its text once closed is a function of the entries written'])

prop('C22', 'A histogram sketch counts every value and keeps extremes, order and weight',
  'A sketch made for n bins and given any finite numbers, one by one or several at once, has Count equal to the number of values given, Min and Max equal to their least and greatest, and at most n bins, whose positions are strictly increasing and between Min and Max and whose frequencies are positive and add up to Count. '
  'As long as at most n distinct values were given, the bins are those values with their exact frequencies; beyond, the two closest bins are merged into their weighted mean. '
  'Read gives these bins and one last border above Max. Merging another sketch adds what it counts and covers its extremes, and leaves the other as it was; a sketch that is stored and loaded again is the same.',
  ['histories', 'inputs'], 'every size of sketch and every sequence of values and counts, in any order',
  'Tests compare quantiles of random samples with a tolerance: a value lost, counted twice or put out of order among many bins is within the tolerance.',
  ['dsstats/histosketch/histosketch.go'],
  [('New, Add, AddMany, Merge, Read, Count, Min, Max', 'dsstats/histosketch/histosketch.go')],
  'The representation invariant (strictly sorted, weighted, within the extremes, room for one more, running totals of the weights from 0 to Count) proved to hold after New, and kept by AddMany, Add and Merge, with invariants for the three loops of insertion, search for the closest pair, and removal; sort.Search is a built-in rule over the comparison it is given. Exactness for few values, which pair is merged, the count of a merged sketch, storing and loading, Sum, Quantile and NewFromSample are compared with a reference by the bounded oracle only.',
  assumptions=['floating point numbers read as real numbers', 'math.Abs, math.Copysign behave as documented'])

prop('C21', 'Statistics count every value of a body in its own column',
  'The statistics of a body are taken from every entry, each exactly once and in order; an error of the reader is reported and gives no statistics. '
  'Rows that are lists have one statistic per position, in order; rows that are objects have one per key, named by it and sorted by key; plain values have one. The kind of a column is that of its first value, and values of other kinds are not counted. '
  'For numbers: how many, least, greatest, mean, a median between least and greatest, and a histogram whose frequencies add up to the count; for text: how many, shortest and longest length in bytes, and the frequency of each text (shortened beyond 40 bytes); for truth values: how many, true and false; for nulls: how many. '
  'Each statistic carries its type, and calculating changes no row.',
  ['inputs', 'fault_sequences'], 'every body of any length, shape and mixture of kinds, with missing cells, and every place where the reader fails',
  'Tests compare the output for a few fixed bodies: a column that first appears in a later row, a cell of another kind, or a failing reader are endless combinations.',
  ['dsstats/stats.go', 'dsstats/histosketch/histosketch.go', 'dsio/entry.go'],
  [('CalculateFromEntryReader, ToMap, Accumulator', 'dsstats/stats.go'), ('Write, Close, Stats and Map of the accumulator of each kind', 'dsstats/stats.go')],
  'Exact postconditions of every function of the package except Calculate, the Map of nested columns, and the text of shortened keys: each write updates exactly its counters; a row gives each of its cells to the child of its position or key exactly once (loop invariants, also for keys in any map order); the columns of objects are all keys, in ascending order; the loop over a body gives every entry to one accumulator. Lemmas over whole columns: least, greatest, mean and histogram total of any sequence of numbers. Children are used through the interface contract of an accumulator (it changes only its own state). Frequencies beyond 200 distinct texts, and the number of unique texts, are estimates of external libraries and outside the statement; the report of a nested object overwrites children called type or key and is outside it too.',
  assumptions=['floating point numbers read as real numbers', 'go-topk keeps exact counts of up to its capacity of texts', 'sort.StringSlice sorts'])

prop('C29', 'Typed texts and values compare, parse and print by what they stand for',
  'Comparing two texts of a column type orders the empty text before any other, strings byte by byte, and integers and numbers by the number they stand for; it gives the opposite answer the other way round, and an error when a text does not stand for such a number or the type has no order. '
  'Two values are equal exactly when they are of the same kind and have the same content. '
  'A text parses as its type exactly when it stands for a value of it, giving that value; a value of another kind than the type says has no text, and a string, an integer or a truth value printed parses back as itself.',
  ['inputs'], 'every pair of texts, every type, every pair of values',
  'Comparison is a law over all pairs (order, symmetry); tests compare a few.',
  ['vals/compare.go', 'vals/type.go', 'vals/value.go'],
  [('CompareTypeBytes, Equal', 'vals/compare.go'), ('Type.Parse, Type.ValueToString, Type.ValueToBytes', 'vals/type.go')],
  'Exact postconditions; the opposite answer and reading back are lemmas over the contracts. Values are used through an interface contract (the kind and the content do not change); which texts stand for numbers is strconv. Numbers that are not comparable (NaN), and the text of numbers, arrays and objects are compared by the oracle only or outside the statement.',
  assumptions=['floating point numbers read as real numbers', 'strconv and bytes.Compare behave as documented'])

prop('C33', 'Comparing components ignores where they are stored and nothing else',
  'Two transforms, two visualisations or two readmes compare as the same exactly when all their exported fields except Path are equal, whatever Path and the opened files are; an absent component is the same as an absent one only. Comparing is symmetric and changes nothing.',
  ['inputs'], 'every pair of components, every field',
  'A field added to or dropped from a comparison shows only for pairs that differ in that field alone.',
  ['transform.go', 'viz.go', 'readme.go'],
  [('ShallowCompare of Transform, Viz and Readme', 'transform.go, viz.go, readme.go')],
  'Exact postconditions, one per exported field of the struct as it is declared now: a field the comparison does not look at fails an obligation of that name.',
  assumptions=['reflect.DeepEqual behaves as documented'])

prop('C30', 'Generated rows have the shape of their schema',
  'A generator is made for exactly the schemas that describe a table. Row after row, without end and without an error, it gives the next position and a list with one cell per column, each of the kind its column names first (any plain value where that kind is none of the JSON kinds); each row is a new list, and generating changes neither the structure nor the schema.',
  ['inputs', 'histories'], 'every tabular schema, every seed, every number of rows',
  'Values are random: a test fixes one seed and sees a few rows of one column.',
  ['generate/tabular.go', 'generate/value.go', 'tabular/tabular.go'],
  [('NewTabularGenerator, ReadEntry', 'generate/tabular.go'), ('ValueGenerator.Type', 'generate/value.go')],
  'Postconditions over any state of the random source; the columns of a schema by the contract of ColumnsFromJSONSchema (C23). Proved: the number and kinds of the cells, the position, freshness, no panic for a source and maximum length as options leave them; options are used through a function-type contract that those of the package are proved to meet. The characters of texts are checked by the oracle only.',
  assumptions=['math/rand gives numbers in the range asked for'])

prop('C27', 'Step files give back the scripts that were written to them',
  'Writing steps writes the text of each script, in order, with a line of three dashes between two of them and nothing else; a script that is no text, and a write that fails, is an error. '
  'Reading splits the whole text at such lines, giving one step with that script for each piece, in order, and an error when the text cannot be read. So at least one step, none of whose scripts contains such a line or, but for the last, ends with three dashes at the beginning of a line after another, reads back as the same scripts.',
  ['inputs', 'fault_sequences'], 'every list of steps, scripts given as strings, bytes or readers, and every place where reading or writing fails',
  'The separator is in band: scripts with dashes, blank lines at their ends, or empty scripts are endless, and a write that fails half way is not tested.',
  ['stepfile/stepfile.go'],
  [('Write, Read', 'stepfile/stepfile.go')],
  'Write is proved to append exactly the joined texts for any number of steps (loop invariant over a recursive specification of the text), Read to give exactly the pieces of the whole text. What strings.Split splits is an uninterpreted function of the text; that the pieces of joined texts are those texts again, and scripts given as readers, are compared by the oracle only.',
  assumptions=['strings.Split splits at every separator', 'ioutil.ReadAll reads everything or reports an error', 'a sink that reports no error has taken all bytes'])

prop('C20', 'Detecting a structure fills in what is missing and leaves the body readable',
  'The data format and compression of a file are those its last extensions name, in that order, and a name without a known data format is an error. '
  'Detecting the structure of a dataset sets exactly the fields of format, compression, format options and schema that are not set, from the name and the content of its body; a structure that lacks nothing, and any failure, leaves dataset, structure and body as they were. '
  'The base schema is an array or an object as the first byte of a JSON body that is not white space, or the first byte of a CBOR body, says, an array for line-delimited JSON and spreadsheets, and an error for a body that starts neither; native rows give one column for each cell of the first row, numbered and typed by its kind, and anything but rows is an error; for CSV the options say lazy quotes, and a header row exactly when every cell of the first row could be a name (no number, truth value or blank). '
  'A compressed body is decompressed for this. Afterwards the body reads the same bytes from its beginning, under the same file name.',
  ['inputs', 'fault_sequences'], 'every file name, every partly set structure, every body of any length and any way its reader hands it out',
  'Tests use a dozen names and small files read at once: which combination of set fields, blanks beyond the first hundred bytes, or bytes read ahead are lost is not sampled.',
  ['detect/detect.go', 'detect/determineFields.go', 'detect/json.go', 'detect/cbor.go', 'detect/xlsx.go', 'vals/type.go'],
  [('FormatFromFilename, Structure, FromReader', 'detect/detect.go'), ('Schema, CSVSchema', 'detect/determineFields.go'), ('JSONSchema', 'detect/json.go'), ('CBORSchema', 'detect/cbor.go'), ('TabularSchemaFromTabularData', 'detect/detect.go')],
  'Postconditions of each function; JSONSchema with loop invariants over readers that hand out any number of bytes at a time (white space of any length); Structure with one postcondition per field, for success and failure, and with a ghost of what a reader still gives: the restored body gives all that the original would have given. The titles and types of CSV columns, and detection from a path are compared by the oracle only. The full path of a body file is replaced by its file name, which is outside the statement.',
  assumptions=['encoding/csv, filepath.Ext, strings.TrimPrefix/TrimSuffix/TrimSpace, varName behave as documented', 'io.TeeReader and io.MultiReader together give what was read and then the rest', 'gzip and zstd libraries read back what they wrote'])

prop('C25', 'A preview shows the start of a dataset and leaves its files readable',
  'Previewing a dataset gives the dataset itself with its body set to the first hundred entries of the body file, as JSON of the same schema, read by the structure of the dataset, and with the text of its readme set to the content of the readme file, or, from 997 bytes on, to the first 997 bytes and three dots. '
  'Nothing else of the dataset changes, and afterwards both files read the same bytes from their beginning, under the same path. '
  'No dataset, an empty one, a body without a structure, and a file that cannot be read are errors.',
  ['inputs', 'fault_sequences'], 'every dataset, with or without files, of any length, and any way their readers hand the bytes out',
  'Tests preview three small datasets; files longer than what a preview reads are where bytes can be lost.',
  ['preview/preview.go', 'dataset.go', 'readme.go', 'dsio/dsio.go'],
  [('Create', 'preview/preview.go')],
  'Postconditions of Create over a ghost of what each reader still gives (a part read through a copy and the rest, glued), and of what the conversion was asked for; frame: only Body, the two files and the readme text change, also in everything the dataset refers to. The conversion itself is used through an assumed contract (what it was asked for, the text it gives); that it gives the first hundred entries, and the first 997 bytes of the readme text, are compared by the oracle only.',
  assumptions=['dsio.ConvertFile changes nothing but the file it reads (its parts are C12 to C18)', 'io.TeeReader and io.MultiReader together give what was read and then the rest', 'io.LimitReader and ioutil.ReadAll behave as documented'])
