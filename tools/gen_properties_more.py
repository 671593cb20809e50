# The C border and the naming macros (read by gen_properties.py).
CH_=PR+"channels/"; ST_=PR+"states/"; RS="crates/rsharp/rust/src/"; EX="client/contract_example/rust/src/"
CAPI=[BL,OBJ,CM,PR+"mod.rs",ST_+"mod.rs",ST_+"id.rs",ST_+"handle.rs",CH_+"mod.rs",CH_+"channel.rs",CH_+"handle.rs",EX+"lib.rs",EX+"states.rs","demos/unity_states/rust/src/lib.rs"]
NOC="No test calls an exported function, and Rust's own checks end at the border: which values, owners and sequences a C program uses is decided at run time."
p("C20","The exported C functions do what the Rust operations do",
  "Through the exported C functions a program sees the same baseline as through the Rust API: after any history of registering, unregistering, creating, removing, binding, reading and writing, every identity, name, version, object list, object, field id, handle, state and channel it obtains is the one the Rust API gives. A value, state, keyframe or channel handed over holds exactly what was put in, at the place it was put, whatever the order of calls, and handing one to a create or set function never alters another.",
  ["histories","inputs"],"all call sequences within the bound on baselines with the three exported contracts, and per property type all sequences that make, hand over, overwrite and release values, states, keyframes and channels",
  NOC,CAPI,[("exported functions per type (Type_T__function)",ST_+"mod.rs"),("Baseline__*",BL),("ExampleContract__* / BallContract__*",EX+"lib.rs")],
  ["exported extern C functions, compared with the Rust API on the same baseline"])
p("C21","C programs can release everything they own, once, and nothing else is freed",
  "Every object that an exported function hands to its caller can be released by an exported function, and once a program has released all it owns no memory remains allocated. No exported function called as documented reads, writes or frees memory that is not live, frees anything twice or with another size than it was allocated with, and what a function takes over (a value, a keyframe, a list) is released by its new owner exactly once.",
  ["histories"],"all call sequences within the bound on baselines and on values, states, keyframes, lists and channels of every exported type, with all release orders of three kinds at the end",
  "Ownership at the C border is outside Rust's checks; a leak or double free shows only after a sequence of calls under an allocator that watches every block.",
  CAPI+[RS+"rbox.rs",RS+"rvec.rs",RS+"string.rs"],[("*__drop functions",ST_+"mod.rs"),("keyframe lists",CH_+"channel.rs"),("rbox / rvec macros",RS+"rvec.rs")],
  ["allocator: live blocks and bytes, sizes and alignments on release, poisoned freed memory"])
p("C22","Texts cross the border intact, and ill-formed text is refused",
  "A text copied in through the exported UTF-8 or UTF-16 functions is stored as exactly that text, whatever its characters (zero included) and length and whatever later happens to the source; its value reads back as exactly its UTF-8 bytes, the same each time. Input that is not well-formed is refused and never becomes a text, and releasing a text leaves no memory behind.",
  ["inputs"],"all Unicode characters, all byte sequences of short length, all longer sequences over the bytes and units at which decoding branches, and all lengths up to the bound",
  "No test passes a text; decoding branches on every combination of lead and continuation bytes and surrogates.",
  [RS+"string.rs"],[("copy_utf8 / copy_utf16 / value",RS+"string.rs")],["rsharp__String__copy_utf8, __copy_utf16, __value"])
p("C23","Lists handed over the border are what was pushed and set",
  "A list made through the exported functions has exactly the items pushed, in order, with those set replaced, whatever the sequence of calls, the number of items and the item type. Items moved into a list belong to it, a replaced item is released once, and dropping a list releases its items.",
  ["histories"],"all sequences of new, push, set and drop within the bound for every exported list type, all items read after every call, and all lengths up to the bound",
  "No test makes such a list; growth and replacement move ownership in ways only a sequence shows.",
  [RS+"rvec.rs",CH_+"channel.rs",OBJ],[("rvec macro",RS+"rvec.rs"),("RVec_Keyframe per type",CH_+"channel.rs")],["RVec_*__new / push / get / set / drop"])
p("C24","Exported names and signatures are what C programs are promised",
  "Every function of every exported type carries the full path of its module and type in its name, the declared signature is the one that its name and type promise, the generated header declares it once, and the built library exports it. The naming macros put exactly the normalised path before the name of any item, and substitute that path for every placeholder and nothing else, in attributes and expressions alike.",
  ["programs"],"all exported functions of the built library (name, parameters, result), and all uses of the naming macros over paths, spellings, item kinds, nestings and expression forms within the bound",
  "A misnamed or missing export compiles and passes all tests; the generated C# that relies on it is never run by them.",
  CAPI+[RS+"rbox.rs",RS+"rvec.rs",RS+"string.rs","crates/rsharp/rust/macro/src/lib.rs","crates/rsharp/rust/macro/src/remangle.rs","crates/rsharp/rust/macro/src/substitute.rs"],
  [("remangle: path parsing and renaming","crates/rsharp/rust/macro/src/remangle.rs"),("substitute","crates/rsharp/rust/macro/src/substitute.rs")],
  ["symbol table of the built library","generated header","type_name of remangled items"])
CG="client/codegen_wrapped/src/"; CS="client/cs/src/"; RC="crates/rsharp/cs/src/"
TPL=["client/codegen_wrapped/"+t for t in ("opaque_template.cs.tpl","state.cs.tpl","keyframe.cs.tpl","state_id.cs.tpl","state_handle.cs.tpl")]+["crates/rsharp/codegen/rbox.cs.tpl"]
CSALL=[CS+f for f in ("Baseline.cs","StateBindings.cs","StateAccessors.cs","Contract.cs","ObjectHandle.cs","RVec_Keyframe.cs","Common.cs")]+[RC+f for f in ("RSharp.cs","RString.cs","RVec.cs")]
p("C25","The C# generators never lose or mix up files, and can always be run again",
  "Each generator makes exactly one file with one class per property or box type that Rust exports, and what it makes never depends on what lay in its output directory before. Without -f it refuses a directory that holds anything and changes nothing in it; with -f it leaves foreign files alone and makes every file of its own what it should be; it fails, before changing anything, when a template is missing or unreadable as one. A run that cannot finish, or is cut off while writing, does not report success, and running it with -f afterwards makes everything right.",
  ["histories","crash_points","fault_sequences"],"all operations (plain, forced, cut off at several file sizes, with each template missing, broken or using an unknown value, with each file not writable) on all directories of a stated family",
  "No test runs a generator; what one does depends on what earlier, perhaps interrupted, runs left behind.",
  [CG+"lib.rs",CG+"main.rs",CG+"type_info.rs",CG+"template_state.rs",CG+"template_keyframe.rs",CG+"template_state_id.rs",CG+"template_state_handle.rs","crates/rsharp/codegen/src/codegen.rs","crates/rsharp/codegen/src/main.rs"]+TPL,
  [("Codegen::new / render_to_file",CG+"lib.rs"),("Codegen","crates/rsharp/codegen/src/codegen.rs")],["exit status of the generators","contents of their output directories"])
p("C26","C# programs read back exactly what Rust holds",
  "Through the C# classes, generated and hand-written, a program sees the baseline as it is: whether it is the main one, each contract's name and version by its handle and by the ids of its fields, and for every state of every live object the value that it was created with or that was written last, whichever handle, id or accessor it is reached through. Nothing can be changed through a baseline held for reading only, a wrapper that was disposed of or moved from throws instead of reaching Rust, and every call into Rust names an exported function, with the arguments and kinds of pointers that it takes.",
  ["histories","programs"],"all histories within the bound of registering, creating, writing, removing, disposing and collecting, for both contracts with C# classes; the Unity demo's data source; the repository's own C# tests",
  "The C# code is not compiled or run by the Rust tests at all, and a wrong pointer or accessor shows only after a certain history.",
  CSALL+["client/contract_example/cs/src/ExampleContract.cs","demos/unity_states/cs/src/BallContract.cs","demos/unity_states/cs/src/BallStates.cs","demos/unity_states/unity/Assets/Scripts/BallStateDataSourcePlatform.cs"]+TPL[:4]+CAPI[:3],
  [("Baseline.State / StateMut",CS+"StateAccessors.cs"),("Baseline.BindState*",CS+"StateBindings.cs"),("templates",TPL[1])],["values and exceptions that C# programs get","the calls that reach Rust"])
p("C27","C# wrappers own a Rust value at most once and release it exactly once",
  "Whatever a C# program does with boxes, strings, handles, states, keyframes and keyframe lists (making, looking at, setting, moving, pushing, replacing, disposing in any order), each wrapper that owns a value gives the value it was last given, each that gave it away or was disposed of is empty and throws, and only what is owned can be given away. Every value has one owner, is released once, by Dispose or by the finalizer in whichever order finalizers run, and no freed or foreign memory is touched.",
  ["histories"],"all histories within the bound over boxes, references, states, keyframes and a list, for all 14 value types, with finalizers in two orders and collections at any point",
  "A double release or leak across the border needs a particular history and shows only under an allocator that watches every block; no test runs C#.",
  [RC+f for f in ("RSharp.cs","RString.cs","RVec.cs")]+[CS+"RVec_Keyframe.cs",CS+"ObjectHandle.cs",CS+"Contract.cs"]+TPL+[CG+"template_state.rs",CG+"template_keyframe.rs",CG+"type_info.rs"],
  [("OpaqueWrapper / SharedWrapper",RC+"RSharp.cs"),("State.Value","client/codegen_wrapped/state.cs.tpl"),("RVec_Keyframe_U8",CS+"RVec_Keyframe.cs")],["Inner, Value, exceptions","allocator: live blocks, double and wrong releases"])
G="demos/circle_game/src/"
p("C28","The circle game shows every circle where its object is",
  "The game starts with one hundred circles on a 10 by 10 grid of places 50 apart, each belonging to exactly one object of its own in the fork baseline. In every frame each coordinate of each circle makes one random step of its own, of at most one in either direction, and the circle is shown exactly where its object's states say, before or after that frame's step, with its other coordinate, rotation and scale untouched. No frame panics, touches the main baseline, or adds, loses or swaps objects, circles or contracts.",
  ["histories","inputs"],"all frame sequences within the bound with every draw taken from a set of values including the extremes; every single draw of a frame varied alone",
  "The game has no tests; a mixed-up handle or coordinate shows only for particular random draws over several frames.",
  [G+"lib.rs",G+"circle.rs",G+"circle_bundle.rs",G+"components.rs"],
  [("setup",G+"lib.rs"),("random_walk",G+"lib.rs"),("sync_transforms",G+"lib.rs")],["objects and states of both baselines after a frame","transforms of the shown entities"])
SZ="client/serialize/rust/src/"
p("C29","A serialized baseline is read back as it was, and bad buffers are refused",
  "Reading what was serialized gives a baseline of the wanted kind in which every registered contract has as many objects as were written, with the same values in every state of every primitive type, and every reference to an object or contract leads to the counterpart of the one it led to, whatever cycles they form and in whatever order contracts were written, registered and read; the stand-in object used meanwhile is gone, and serializing changes nothing. Contracts that differ from the written one in name, version, or the names, order or types of their states are not accepted for it, lists of states are refused, and references to parts that were not read fail the reading. A buffer with missing, surplus, mistyped or out-of-range parts or changed bytes is refused or read as what it says, never a panic and never a baseline with a dangling reference.",
  ["inputs","programs"],"all graphs of objects and references, contract subsets and orders within the bound; all single and double faults of a hand-made buffer, all values of each of its bytes",
  "The one test reads one baseline; what goes wrong depends on the graph, on the order, and on what the bytes are.",
  [SZ+f for f in ("serializer/mod.rs","serializer/handle_map.rs","deserializer/new/mod.rs","deserializer/new/contracts.rs","deserializer/new/objects.rs","deserializer/new/states.rs","types/eq_impl.rs","types/from_impl.rs")]+["client/serialize/flatbuffers/"+f+".fbs" for f in ("baseline","contract","object","primitive","state")],
  [("Serializer",SZ+"serializer/mod.rs"),("DeserializerBuilder, Deserializer",SZ+"deserializer/new/mod.rs"),("find_serialized_contract",SZ+"deserializer/new/mod.rs")],["objects, values and references of the baseline that is read","the error, or a panic"])
