import json
T='internal/tson/'; S=T+'serialization.go'; G=T+'tson.go'; P='internal/tsonpatch/tsonpatch.go'; L='internal/logument/logument.go'
V='internal/vssgen/vss.go'; X='internal/vssgen/extension.go'; A='internal/vssgen/args.go'
props=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':obs or [],'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    props.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','TSON documents survive a write/read round trip in both writers',
 'Writing any TSON document (objects, arrays, nulls, strings, finite numbers, booleans, each leaf with a timestamp or without one) as TSON text and reading the text back gives the same structure, keys, values and timestamps. This holds for the compact writer and, for any whitespace indentation, for the indented writer. The indented writer given plain (timestamp-free) or value/timestamp-style JSON data writes text that reads back as the same data, too.',
 ['inputs'],'all TSON documents: any nesting, any Unicode keys and strings, any finite float64, any timestamp >= 0 or the "no timestamp" value; any whitespace indent/prefix',
 'The tests write two fixed documents and never escape sequences, exponents, nulls, 64-bit timestamps, or plain JSON data.',
 [S],[('compact and indented writers','serialization.go: Marshal, MarshalIndent'),('reader','serialization.go: Unmarshal')],['text returned by the writers','document returned by the reader'])
p('C02','The reader gives every valid TSON text exactly the meaning of the grammar',
 'Every text of the TSON grammar is accepted and denotes one document: members keep the timestamp written after their key or after their value, array elements the one written before or after the element, and a timestamp left out or written as <> means "no timestamp". Whitespace between tokens, the escape used for a character (including \\uXXXX and surrogate pairs), and the notation of a number never change the meaning.',
 ['inputs'],'all texts derived from the grammar with random whitespace, escapes, number notations and timestamp positions',
 'Tests parse a handful of fixed texts; the space of notations for one document is unbounded.',
 [S],[('recursive descent parser','serialization.go: Parser')],['document returned by the reader'])
p('C03','Malformed TSON is rejected with an error and never crashes the reader',
 'Reading any byte sequence ends with a document or an error, never with a panic, a hang or the death of the process, however long or deeply nested it is. A text which is not one complete TSON document (truncated, trailing data, missing separators or brackets, bad escapes, bad timestamps or numbers) is reported as an error instead of being read as something else. Whatever is accepted can be written again and reads back as the same document.',
 ['inputs'],'arbitrary bytes, truncations and single-token corruptions of valid texts, nesting depths up to millions',
 'No test feeds malformed text; robustness is a statement about all inputs.',
 [S],[('error returns of the parser, depth limit, end-of-input check','serialization.go: Unmarshal, Parser')],['error / panic of the reader'])
p('C04','Conversions between JSON and TSON keep all data and do not modify inputs',
 'Converting JSON data to TSON gives each primitive as a leaf without timestamp at the same place, and converting TSON to JSON gives the same structure with only timestamps dropped, so JSON to TSON to JSON is the identity. Object keys such as "value" or "timestamp", nulls, empty containers and top-level primitives are data like any other. The byte and in-memory variants agree, and none of them modifies what it is given.',
 ['inputs'],'all JSON values (finite numbers, any keys incl. value/timestamp) and all TSON documents',
 'Tests convert one VSS file; ambiguous keys, nulls, primitives and aliasing are never exercised.',
 [G],[('FromJson/ToJson and byte variants','tson.go: FromJson, FromJsonBytes, ToJson, ToJsonBytes')],['converted values','the caller\'s value after the call'])
p('C05','The compatible (plain JSON) encoding of TSON is lossless',
 'Encoding a TSON document as compatible JSON (every leaf an object of value and timestamp) and decoding it again gives the same document with exactly the same 64-bit timestamps, values and nulls. All forms of the encoding (bytes, sorted bytes, indented string, in-memory) describe the same document, and the sorted form is deterministic. Decoding malformed or non-TSON JSON reports an error instead of crashing or dropping data.',
 ['inputs'],'all TSON documents with the full int64 timestamp range; arbitrary bytes for decoding',
 'Tests use second-resolution timestamps on one file; precision loss shows only above 2^53.',
 [G,S],[('compatible encoders/decoders','tson.go: ToCompatibleTsonBytes, FromCompatibleTsonBytes, ToCompatibleTson, ToCompatibleTsonBytesSorted; serialization.go: ToCompatibleTsonString')],['bytes and decoded documents'])
p('C06','Document equality is exact with timestamps and ignores only timestamps without',
 'Two documents compare equal with timestamps exactly when structure, keys, values and all timestamps are the same, and compare equal without timestamps exactly when they differ in timestamps only. Both comparisons are reflexive and symmetric, do not depend on how the documents were built, and do not modify them.',
 ['inputs'],'all pairs of documents: equal copies, pairs differing in one value, key, element, type or timestamp (also by 1 above 2^53)',
 'Tests compare one pair of files; near-equal pairs are unbounded.',
 [G],[('Equal, EqualWithoutTimestamp','tson.go')],['comparison results'])
p('C07','Path lookup returns exactly the value stored at the path',
 'Looking up a path (JSON pointer with ~0 and ~1 escapes, or dotted notation) returns exactly the value which stepping through the document by those keys and array indexes reaches, null included; the empty path is the whole document. A path which leads nowhere (missing key, index out of range, non-numeric index, through a leaf) is an error, never a panic or another value. The latest timestamp of a document is the maximum of its leaf timestamps (0 if a container holds none).',
 ['inputs'],'all documents and all existing and non-existing paths, with keys containing ~, / and digits',
 'Tests look up a few plain paths.',
 [G],[('path splitting and lookup','tson.go: SplitPath, GetValue, GetLatestTimestamp')],['returned value and error'])
p('C08','Applying a generated patch to the original reproduces the target',
 'For any two documents, whenever patch generation succeeds, applying the patch to the first gives the second up to timestamps of unchanged values, and the timestamp-aware variant gives the second including all leaf timestamps. Generation succeeds for changed leaves, added leaves, removed members of any kind, and array length and element changes; where it cannot express a difference it reports an error rather than a wrong patch.',
 ['inputs'],'all pairs of documents related by random edits (value, timestamp, type, add, remove, array grow/shrink, nested), with awkward keys',
 'Tests diff two fixed VSS files; arrays of another length, removed containers or escaped keys never occur.',
 [P,G],[('diff generators','tsonpatch.go: GeneratePatch, GeneratePatchWithTimestamp'),('patch application','tsonpatch.go: ApplyPatch')],['patch and resulting document'])
p('C09','Generated patches contain exactly the changes and nothing else',
 'Patch generation between documents with equal values yields no operation, and with the timestamp-aware variant no operation exactly when the timestamps are equal as well. Every generated operation adds, replaces or removes a value that really was added, changed or removed, carries the new value with the timestamp of the target, and no path is changed twice.',
 ['inputs'],'all pairs of documents, identical, differing only in timestamps, or differing by random edits',
 'Tests print patches without an oracle for redundancy.',
 [P],[('diff generators','tsonpatch.go: GeneratePatch, GeneratePatchWithTimestamp')],['operations of the patch'])
p('C10','Applying operations changes exactly the addressed location, in order',
 'Applying a patch performs its operations one after the other, each on the result of the previous one: add and replace set the value with the timestamp of the operation at the addressed location (missing containers are created, arrays grow), remove deletes it (later array elements move up), and everything else stays as it was. An operation that cannot be carried out (path through a leaf, bad or out-of-range array index, unsupported operation or value) is reported as an error, never as a panic or a silent success. An empty patch gives the same document.',
 ['inputs'],'all documents and operation sequences over existing, missing and invalid paths',
 'Tests apply two patches to fixed files; most path/kind/operation combinations are untouched.',
 [P],[('patch application','tsonpatch.go: ApplyPatch, ApplyOperation')],['resulting document, error'])
p('C11','Generating or applying patches never modifies the documents or patches given',
 'Generating a patch and applying a patch or operation leave the documents and patches passed in exactly as they were, whether the call succeeds or fails. Later changes made through the result of an application never show in the original document.',
 ['inputs'],'all documents and patches, valid and failing at any operation; further patches applied to results',
 'No test looks at the inputs after a call.',
 [P],[('copy on write along the path','tsonpatch.go: ApplyPatch, ApplyOperation, GeneratePatch*')],['inputs before and after'])
p('C12','Patches survive being written as JSON and read back',
 'Writing a patch or operation as JSON text with any of the writers gives valid JSON, and reading it back gives the same operations in the same order with the same paths, values and exact 64-bit timestamps. This holds for any path and string content, for removals without value, and for false, zero and empty-string values. Malformed patch text is reported as an error.',
 ['inputs'],'all patches over any Unicode path/value, finite numbers, int64 timestamps; malformed bytes',
 'Tests read one patch file and print others; quoting and falsy values are never checked.',
 [P],[('operation/patch writers and reader','tsonpatch.go: Operation.Marshal, Operation.String, Patch.String, Unmarshal, FromJson')],['text and patch'])
p('C13','A version snapshot equals the initial state plus all patches up to the version',
 'For every version of a versioned document, the snapshot at that version equals the initial document with the patches of all versions up to it applied in order. This does not depend on which snapshots or other queries were asked before or in which order, nor on asking again. Asking for a version which does not exist is refused.',
 ['histories'],'all histories of appended patches and all orders of snapshot queries',
 'Tests take snapshots in one order on one history; memoised snapshots make later answers depend on earlier queries.',
 [L,P],[('nearest snapshot plus replay, memoisation','logument.go: Snapshot')],['snapshot results'],[('Snapshots','memoised states per version','logument.go: Logument')])
p('C14','Queries never change a document or its history',
 'Snapshot, temporal snapshot, slice, temporal slice, track, temporal track and history queries leave versions, patches, current state and previously returned results as they were, except that a temporal snapshot or temporal slice first records pending changes as the next version. Every query gives the same answer when repeated, no matter which other queries run in between.',
 ['histories'],'all histories with and without pending changes and all sequences of queries',
 'Tests call each query once and do not compare the document before and after.',
 [L],[('query functions','logument.go: Snapshot, TemporalSnapshot, Slice, TemporalSlice, Track, TemporalTrack, History')],['versions, patches, snapshots, results'])
p('C15','Recording changes loses, duplicates and shares nothing; versions are contiguous',
 'Changes stored and set are queued in order and become exactly one new version when appended; appending without pending changes creates no version, and versions are numbered 0, 1, 2, ... without gaps. Every recorded change appears exactly once in exactly one version, in the order recorded, unaffected by what the caller later does with the slices passed in or with other documents fed from the same slices. The current state always equals the initial state with all recorded changes, appended or pending, applied.',
 ['histories'],'all interleavings of store, set, append and queries, with caller slices reused and modified afterwards',
 'Tests append two fixed patches.',
 [L],[('patch pool and version list','logument.go: Store, Set, Append')],['versions, patches per version, current state'])
p('C16','A version slice answers like the full document for its versions',
 'The slice of versions i to j is a document of exactly those versions whose snapshot at every version in the range equals that of the full document, whose current state is the snapshot at j, and which holds exactly the patches of those versions and the snapshots already taken of them. This holds for any order of earlier queries and for slices of slices, and invalid ranges are refused.',
 ['histories'],'all histories and all version ranges i <= j, after any earlier queries',
 'Tests slice one range of one history.',
 [L],[('slicing','logument.go: Slice')],['snapshots, versions, patches of the slice'])
p('C17','Tracking versions returns exactly the value changes of the range',
 'Tracking versions i to j returns, per version, a subsequence of the changes recorded there which leaves out only changes that set a value to what it already was, and keeps every real change and every removal. Replaying the tracked changes on the state before version i gives the state at version j up to timestamps. Consecutive changes of a path to the same value are returned once.',
 ['histories'],'all histories with repeated values, removals, re-adds, nested paths and arrays; all ranges',
 'Tests track one range without removals.',
 [L],[('change filter','logument.go: Track')],['returned patches'])
p('C18','A temporal snapshot is the state made of all changes up to its timestamp',
 'The snapshot at time t equals the initial document with every recorded change, appended or pending, whose timestamp is at most t applied in time order (changes with the same timestamp in recorded order), and no later change. It is independent of versions, earlier queries and snapshots, and for times before the first or after the last change gives the initial and the latest state.',
 ['histories'],'all histories (changes recorded in time order, plus out-of-order updates of leaves) and all times including the boundaries',
 'Tests ask for a few times of one history.',
 [L],[('time-ordered replay','logument.go: TemporalSnapshot')],['snapshot results'])
p('C19','Temporal tracking returns exactly the value changes in the time range',
 'Tracking times a to b (both inclusive) returns only appended changes with timestamps in the range, in recorded order under their version, leaving out only changes that set a value to what it already was, and no version without changes. Every real change and every removal in the range is returned.',
 ['histories'],'all histories and all time ranges including single instants and boundaries',
 'Tests track one time range.',
 [L],[('time filter and change filter','logument.go: TemporalTrack')],['returned patches'])
p('C20','A temporal slice answers time queries like the full document',
 'The slice of times a to b contains exactly the changes with timestamps in the range, its temporal snapshot at every time in the range equals that of the full document, its first version is the state just before a, and its last version and current state are the state at b. Its versions are contiguous, so that all further operations work on it.',
 ['histories'],'all histories recorded in time order and all ranges a <= b',
 'Tests slice one time range.',
 [L],[('time slicing','logument.go: TemporalSlice')],['snapshots, temporal snapshots, patches of the slice'])
p('C21','Set records every update; conditional set records exactly the value changes',
 'Setting a value updates the current state at once and queues exactly one change, whichever version the call names. Conditional setting does the same when the value differs from the current one (including queued changes) or the path does not exist yet, and leaves document and queue unchanged when the value is the same, whatever the timestamp. A conditional add is always recorded. Operations other than add and replace are ignored by both.',
 ['histories'],'all sequences of set, conditional set, store and append over existing and new paths and all value types',
 'Tests set two values once.',
 [L],[('Set, TestSet','logument.go')],['pool, current state'])
p('C22','Compacting a path keeps all values at every version and touches only that path',
 'Compacting removes only changes at or below the given path which set a value to what it already was; changes at other paths (including siblings sharing a name prefix) and all removals stay. Snapshots at every version and time keep all their values, and of consecutive changes of a compacted path to the same value only the first remains. Compacting again changes nothing.',
 ['histories'],'all histories with redundant changes, removals, re-adds, prefix-sharing siblings (temporal snapshots: those recorded in time order); all target paths',
 'Tests compact one path once.',
 [L],[('Compact','logument.go')],['patches and snapshots afterwards'])
p('C23','History lists the initial value and every change of a path in time order',
 'The history of a path contains, for each location at or below it which was ever changed, its initial value first (if it had one) and then its changes in time order, leaving out only changes which set a value to what it already was. No location outside the path and no change that was never recorded appears, and locations added after the start are included. The history of a slice starts from the state of its first version.',
 ['histories'],'all histories and target paths, including paths created later and prefix-sharing siblings',
 'Tests print the history of one path.',
 [L],[('History','logument.go')],['returned patches'])
p('C24','Slices are independent documents that can grow further',
 'A slice or temporal slice accepts new changes, appends, sets, compactions and queries like any document, and stays consistent with its own history. Growing or compacting the slice never changes the original document or other slices, and growing or compacting the original never changes a slice.',
 ['histories'],'all histories, all ranges, and all interleavings of further changes to original and slices',
 'No test modifies a slice.',
 [L],[('Slice, TemporalSlice, Append','logument.go')],['snapshots and patches of original and slices'])
p('C25','Each generated dataset step and its patch describe the same change',
 'Applying the patch of a generated step to the previous dataset gives exactly the next dataset including timestamps. With change rate 0 and maintain rate 0 scalar signals stay untouched, with maintain rate 1 only timestamps change, with change rate 1 every scalar signal gets a new timestamp, and structure and value kinds never change. In between, the shares of changed and re-stamped signals follow the rates. The previous dataset is not modified.',
 ['inputs','configurations'],'all generated schemas, datasets, rates and chains of steps',
 'Tests generate one step and print it.',
 [V],[('step generation','vss.go: GenerateNext')],['datasets and patch'])
p('C26','Generated datasets conform to the signal schema',
 'A newly generated dataset contains only signals of the schema at their schema path, every one of them with size 1, none with size 0 and a share following the size in between, each with a value of the kind and range its data type asks for (one of the allowed values for enumerated string signals, each of which occurs eventually) and one common timestamp. The leaf listing, the rebuilt tree and the map export of a dataset all describe the same data.',
 ['inputs','configurations'],'all schemas built from the supported data types, with branches, units and allowed values; all sizes',
 'Tests generate from one schema and print it.',
 [V,X],[('generation and exports','vss.go: Generate, LeafNodes; extension.go: ToMapStringInterface, BuildFromLeafNodes')],['dataset'])
p('C27','Datasets written to disk replay exactly from the first file and the patches',
 'For every generated car, each saved TSON file can be read back, and applying the saved patch of a step to the previous file gives the file of that step including timestamps; recording the patches as versions of the first file gives every file as the snapshot of its version. Exactly the requested number of cars and files is written, and the saved metadata describes the run.',
 ['configurations','histories'],'all schemas, car and file counts, change/maintain rates and sizes (maintain rate may be left out)',
 'Tests do not read the files back.',
 [A,V,S,P,L],[('dataset writer','args.go: Generate, SaveMetadata, PrepareOutputDir; vss.go: Save')],['files on disk'])
p('C28','The web demo serves dataset files and patched documents consistently',
 'For every car and step, the demo serves the stored original document and the stored patch unchanged, and the patched document it serves for step n equals the original with the patches of steps 2 to n applied, the original itself for step 1. Requests do not influence each other.',
 ['inputs','histories'],'all stored datasets, cars and steps, in any order of requests',
 'No test covers the web demo.',
 ['web_demo.go',L,S],[('HTTP handlers','web_demo.go: WebDemo and handlers')],['HTTP responses'])
p('C29','The temporal JSON baseline gives the same answers as the versioned document',
 'Built from the same patches (or period by period, in any order), the temporal JSON document gives at every time the same leaf values as the versioned document, and its track of a path lists exactly the periods in which the path had each value, in time order, clipped to those overlapping the asked range. Event search returns exactly the start times of tracked periods which satisfy the predicate. Building it does not modify the patches given.',
 ['histories'],'all histories of leaf updates over nested paths (with repeated values, removals, re-adds, equal timestamps), all times and ranges',
 'No test covers the baseline; the published comparison depends on both giving the same answers.',
 ['exp/tjson.go','exp/utils_temporal.go',L],[('temporal JSON document','tjson.go: FromTSONPatches, AddItem, TemporalSnapshot, TemporalTrack, FindEvents'),('experiment','utils_temporal.go: NewTemporalQueryExperiment')],['snapshots, tracks, events'])
p('C30','A simulation run leaves consistent documents, patches and counts on disk',
 'For every simulated scenario, replaying all saved patches of a format on its saved initial document gives its saved final document (within the comparison tolerance where unchanged values are not resent), with patch timestamps never decreasing. The reported update, change and patch counts and sizes match the saved patches and the per-update and cumulative logs.',
 ['histories','configurations'],'all scenarios of the simulator, with random sensor behaviour',
 'No test runs the simulation.',
 ['exp/exp_scenario.go','exp/utils.go','exp/doc_data_save.go','exp/scenario.go'],[('simulation loop and document updates','exp_scenario.go: RealworldScenario; utils.go')],['result files'])
p('C31','Equivalent input forms create the same document and history',
 'A document created from TSON text, bytes or a parsed document is the same, and changes handed over as JSON text, bytes, a patch, a list of operations, a list of patches or a single operation are recorded identically, at creation or later. Invalid text is refused, never recorded partially, and leaves nothing behind for a later version to contain.',
 ['inputs','histories'],'all documents and patches in all accepted forms; malformed texts',
 'Tests use text for the document and one form for patches.',
 [L],[('input conversion','logument.go: NewLogument, Store')],['versions, patches, state'])
p('C32','Vehicle set-up and scenario switching follow the sensor definitions',
 'Vehicle data for any scenario contains every defined signal exactly once in the group of its category, with its defined update interval and a value of its defined type. Scenario switching goes to charging exactly when the battery is at most 10 percent and back to the previous scenario when it is full, never before the set cool-down has passed, and reports a switch exactly when it happened. It gives every signal the change pattern defined for the new scenario and changes no other values; a signal that becomes noisy varies around the value it had, and a charging vehicle has charging time remaining. Levels that change steadily go the right way: driving uses up the battery and the fuel, charging fills the battery and leaves less time.',
 ['histories','configurations'],'all scenarios and all sequences of battery levels and times',
 'No test covers the scenario code.',
 ['exp/scenario.go','exp/vss_config.go'],[('initialisation and state machine','scenario.go: InitializeVehicleData, UpdateScenarioState')],['vehicle data, scenario state'])
p('C33','The experiment starts from the leaves of the initial document',
 'Turning an initial value/timestamp document into patches gives exactly one add per primitive signal, with its path and value at time 0, and none for containers; applying them to an empty document gives all its values. Initial documents that cannot be read are reported as an error. The series of snapshot files written for a list of patches holds the initial values and the state after each patch.',
 ['inputs'],'all value/timestamp documents of nested objects',
 'No test covers it.',
 ['exp/utils_temporal.go'],[('CreateInitialPatchesFromJSON, CreateSnapshot','utils_temporal.go')],['patches'])
p('C34','Temporal experiment results on disk are the answers of both documents',
 'Every result file a temporal query experiment writes holds the answer of the named document (temporal JSON or versioned) to exactly the query it records, the same whatever queries ran before. The recorded sizes are the sizes of what is stored, and the summary has one row per query. The whole pipeline reads the latest simulation run of a scenario, ignores other directories, and processes its initial document and all of its patches.',
 ['histories','configurations'],'all histories of leaf updates, all sequences of snapshot, track and event queries, and simulated runs',
 'No test runs the experiment; its results depend on the order of queries and the contents of the results directory.',
 ['exp/utils_temporal.go','exp/exp_temporal.go','exp/tjson.go'],[('experiment and result files','utils_temporal.go: TemporalQueryExperiment; exp_temporal.go: RunTemporalQueryExperiments')],['result files'])
p('C35','Simulated signals follow the change pattern of their scenario',
 'In every update of a simulation, each signal takes the value its change pattern asks for: constant signals never change, linear ones move by their slope up to their bounds, sinusoidal ones follow their curve, random walks move at most one step and stay within their bounds, noisy ones stay within the noise around their baseline, and switches toggle with their probability. No signal ever changes its type, and moving signals do move, both ways and over their whole range where they are random.',
 ['histories','configurations'],'all scenarios of the simulator, all signals, all updates, with random sensor behaviour',
 'No test runs the simulation; a violation may need a bound to be reached or a certain time.',
 ['exp/utils.go','exp/scenario.go','exp/exp_scenario.go'],[('value generation','utils.go; scenario.go')],['values of the saved patches and logs'])
p('C36','A saved document answers and grows like the original when reloaded',
 'A versioned document whose initial document, recorded changes and pending changes were written as text and recorded again answers every query like the original, and goes on like it, whatever written form was used. The same holds for a document (or slice) put together from its saved parts, with any part of its other snapshots. A document which lacks a version refuses to answer across it, a new version is never recorded over changes held already, and neither refusal changes anything.',
 ['histories'],'all histories, all written forms of documents and patches, all subsets of saved snapshots, all further steps and queries',
 'No test saves a history; an error needs a certain value or operation in a certain version to be lost or altered on the way.',
 [L,S,P],[('writers and readers used for keeping documents','serialization.go: Marshal, Unmarshal; tsonpatch.go: String, Marshal, Unmarshal; logument.go: NewLogument, Store, Append, isContinuous')],['text, answers to queries'])
p('C37','Recording the differences of a series of states as versions keeps every state',
 'When each state of a document is recorded as the generated difference from the current state, every version gives its state (including timestamps when generated with timestamps), also in slices and, up to timestamps, after compaction, and the tracked changes lead from any state to any later one. No difference is generated between a version and itself.',
 ['histories'],'all series of states in which each can be expressed from the one before by leaf changes and removals, all ranges and paths',
 'Tests generate single patches; an error may only show when differences, recording and queries are combined over several states.',
 [P,L,S],[('difference, recording and queries together','tsonpatch.go: GeneratePatch, GeneratePatchWithTimestamp, ApplyPatch; logument.go: Store, Append, Snapshot, Slice, Track, Compact')],['state of every version'])
p('C38','The command line of the dataset generator is followed or refused',
 'The options read from a command line are the given parameters in any order and notation, and the documented defaults for those left out; the dataset written with them has the requested cars, files and signals, and its metadata says so. A command line without a required parameter, or with an unusable or unknown one, is refused with a failure status before anything is written. The program run with a command line leaves just this dataset, and nothing of an earlier one.',
 ['configurations'],'all command lines of the documented parameters',
 'No test parses a command line.',
 [A,'web_demo.go'],[('command line','args.go: ParseArgs, PrepareOutputDir, SaveMetadata, Generate; web_demo.go: generateVss')],['options, exit status, files on disk'])
p('C39','Work on shared documents in several goroutines does not interfere',
 'Reading, writing, comparing, converting, differencing and patching documents, patches and texts which several goroutines share gives each of them the result it would get alone, with no unsynchronised access. The same holds for versioned documents created from the same start and the same changes, for slices of a document and the document itself, each used by one goroutine at a time, for datasets generated from one schema, for temporal JSON documents which several goroutines build from the same patches and query, and for vehicles which are each set up and switched between scenarios by a goroutine of its own.',
 ['schedules','inputs','histories'],'all combinations of such calls, documents, histories and slices, under all schedules',
 'No test uses goroutines; a data race shows only under a certain schedule.',
 [G,S,P,L,V,'exp/tjson.go','exp/scenario.go'],[('functions on documents and patches, slices sharing memory, dataset generation','tson.go, serialization.go, tsonpatch.go; logument.go: NewLogument, Store, Slice, TemporalSlice; vss.go: Generate, GenerateNext'),('temporal JSON queries, vehicles','tjson.go: FromTSONPatches, TemporalSnapshot, TemporalTrack, FindEvents; scenario.go: InitializeVehicleData, UpdateScenarioState')],['results, memory accesses'])
p('C40','The demo page shows and saves exactly what the server answered',
 'For every order of selections and button presses, and every order in which the server\'s answers arrive: once all answers are there, the page (index.html) shows the state of the selected car and the selected patch, and after Append the patched result of the selection. Snapshot saves this result under the name of the selected car and patch (car_C_patch_P, P counted from 1 as in the list of patches), and a saved snapshot stays as it is and is shown when it is chosen. The text shown has the meaning of the text the server sent: the same JSON value with every digit of its numbers, or the same TSON text; data never becomes markup.',
 ['schedules','inputs','histories'],'all sequences of user actions, answers and arrival orders',
 'No test runs the page; its mistakes depend on the order of actions and answers, or on numbers with many digits.',
 ['index.html'],[('requests, code blocks, saved snapshots','index.html: updateVehicle, updatePatch, applyPatches, setCodeBlockContent, syntaxHighlight, saveSnapshot')],['text of the code blocks, list of snapshots, button'],
)
p('C41','Recorded signals and stored documents are on disk complete and unchanged',
 'The record of each key signal has one row per recorded step in which the vehicle has the signal, whatever its group, with the simulated time and the value of that step, in order; a signal the vehicle lacks gets no row. All rows up to a full second of simulated time are on disk then, without waiting for the record to be closed, and all others when it is closed. A document, patch list, patch or snapshot given to the store of an experiment reads back as the same data under its own name and index; saving it again replaces it, a save that fails reports an error and leaves the store as it was, and stores and records of different scenarios do not touch each other.',
 ['inputs','histories','crash_points'],'all sequences of recorded steps over any grouping of the signals and any values; all sequences of saves of any JSON data, patches and data that cannot be written',
 'No test records or stores anything; lost tails, mixed-up names and half-replaced files show only for certain sequences, indices and values.',
 ['exp/sensor_data_save.go','exp/doc_data_save.go'],[('recorder','sensor_data_save.go: NewSensorDataRecorder, RecordSensorData, Close'),('store','doc_data_save.go: NewDataStorage, Save...')],['files of the recorder and of the store'],
)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
print(len(props))
