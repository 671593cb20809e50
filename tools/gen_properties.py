#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the list below)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook}})
CR="client/rust/src/"
BL=CR+"baseline.rs"; CM=CR+"contract/mod.rs"; PR=CR+"contract/properties/"
OBJ=CR+"object.rs"; ENG=CR+"engine.rs"; TIME=CR+"time/mod.rs"; AR="crates/datastructures/arena/src/lib.rs"
NOREG="The 16 stable tests never create an object, register two contracts or remove anything: no history of registry operations is exercised at all."

p("C01","Contract registry and object membership stay consistent",
  "After any history of registering and unregistering contracts and creating and removing objects, a contract handle resolves exactly while its contract is registered, a contract whose name and version are already registered is refused (and accepted again after unregistering), and unregistering removes exactly that contract and all objects created under it. A contract's object set always equals the set of live objects created under it, and enumerating a baseline's objects yields exactly the live objects, each once, with its own contract.",
  ["histories"],"every sequence of register / unregister / create / remove operations over several contracts, from empty and from already populated baselines",
  NOREG,[BL,CM],[("register_contract / unregister_contract",BL),("ContractData::objects",CM),("object_create / object_remove bookkeeping",BL)],
  ["Baseline::contract_data","ContractData::objects","Baseline::iter_objects"])
p("C02","Handles never resolve to anything but what they were issued for",
  "A handle to an object, contract, state or channel resolves to exactly the entity it was issued for while that entity exists, and never resolves again once it is gone, however many later creations reuse its place. Two handles compare equal exactly when they were issued for the same entity.",
  ["histories"],"every create / remove / unregister / re-create history within the bound, with every handle ever issued re-examined after each step through every lookup path",
  "Slot reuse after removal needs a multi-step history across several arenas; the one arena unit test samples a single insert/delete sequence and nothing tests the handles of baselines.",
  [BL,AR,PR+"states/handle.rs",PR+"channels/handle.rs"],[("generational index",AR),("typed handle lookup",PR+"states/handle.rs")],
  ["Baseline::object","Baseline::state","Baseline::channel","Baseline::contract_data"])
p("C03","A property reads back the last value written, and writes touch nothing else",
  "Reading a state or channel of an object returns the value last written to that very property, or its creation value if none was written, whichever way it is read or written: typed handle, dynamic handle, index syntax or mutable reference. A write never changes any other property of any object, whatever their types, fields and values.",
  ["histories","inputs"],"all interleavings of writes through all access paths to several properties of several objects, for all 28 property types, with every property re-read after each step",
  "No test writes a property of a baseline; isolation needs at least two objects with equally typed fields and every access path.",
  [BL,OBJ,PR+"states/dyn_handle.rs",PR+"channels/dyn_handle.rs",PR+"states/dyn_state.rs"],
  [("one arena per value type",PR+"states/mod.rs"),("object field tables",OBJ),("dynamic handle dispatch",PR+"states/dyn_handle.rs")],
  ["Baseline::state / state_mut","Index / IndexMut","IStateHandle / IChannelHandle get and get_mut"])
p("C04","Removing an object removes it completely and only it",
  "Removing a live object through its own contract always succeeds, whatever its fields; afterwards neither the object nor any of its states and channels can be reached through any handle, and the memory of its fields is released. All other objects, contracts, states and channels keep their values and stay reachable, and unregistering a contract does the same for each of its objects.",
  ["histories","inputs"],"every removal order over populations of objects with every mix of field counts and types, repeated create/remove cycles included",
  "No test removes an object. Leaks and collateral removals only show over histories that compare all handles, and memory over repeated cycles.",
  [BL,PR+"mod.rs"],[("object_remove walks the contract's fields",BL),("unregister_contract",BL)],
  ["object_remove / unregister_contract result","lookups through old handles","live heap bytes"])
p("C05","A refused operation changes nothing and does not panic",
  "Any operation on a baseline that is refused - unknown or stale handle, handle of another contract, wrong number or types of properties, duplicate registration, binding a foreign field id - reports an error without panicking. It leaves every contract, object, state and channel and their values exactly as they were.",
  ["histories","inputs"],"every failing operation tried in every reachable registry state within the bound",
  "No test triggers a failure of a baseline operation; absence of effect must be compared over the whole state in every reachable situation.",
  [BL,OBJ,CM],[("validate before mutate",BL),("contract checks in bind_state / bind_channel",OBJ)],
  ["Result of the operation","full observation of the baseline before and after"])
p("C06","Objects are created exactly from matching property lists, in field order",
  "Creating an object succeeds exactly when the supplied states and channels agree with the contract's declared fields in number and, position by position, in type, for every one of the 28 property types. The n-th declared field of a created object then holds the n-th supplied value.",
  ["inputs"],"all contract shapes and supplied lists up to a bounded length over all 28 types, including too short, too long, permuted and confusable types (u8/i8, T/Vec<T>)",
  "The input space is every pair of declared and supplied type lists; no test creates an object.",
  [BL,PR+"mod.rs",PR+"dynamic/mod.rs"],[("check_types",BL),("Object::new field tables",OBJ)],
  ["Baseline::object_create","values read back through each field"])
p("C07","All ways of enumerating a contract's fields agree",
  "For every contract, declared by macro or by hand, the field names, property types, Rust type ids, per-field accessors, ids by position and field iterators describe the same fields in declaration order, and every id obtained for a field designates that same field with that type. The iterators yield each remaining field exactly once with exact size hints under any mix of stepping, skipping and adaptors, and positions past the end yield nothing.",
  ["programs","histories"],"all contract declarations over the supported field types within the bound, and all sequences of iterator steps on them",
  "One macro test with a single declaration exists; iterator stepping is never tested (skipping was wrong).",
  [CM,PR+"mod.rs","client/contract_macro/src/lib.rs",PR+"states/iter.rs",PR+"channels/mod.rs"],
  [("states / channels attribute macros","client/contract_macro/src/lib.rs"),("prop_iter!",PR+"mod.rs"),("Contract::state_id / chan_id",CM)],
  ["IStates / IChannels tables","Contract::state_iter / chan_iter","Contract::state_id / chan_id"])
p("C08","Field ids bind only to live objects of their own contract",
  "A field id binds to an object exactly when the object is alive and was created under the very registration the id came from; every route from id and object to a handle then yields the same handle, which reaches the designated field. Ids of other contracts, or of an earlier registration of the same contract, are refused.",
  ["histories"],"every combination of id and object over several contracts and re-registrations, in every reachable registry state within the bound",
  NOREG,[OBJ,BL],[("contract comparison in bind and accessors",OBJ)],
  ["Baseline::bind_state / bind_channel","Object::state / Object::channel"])
p("C09","The main and fork baselines of a realm are independent",
  "Operations on one baseline of a realm never change what can be observed through the other, and each reports its own kind. Applying collactions only ever changes the fork baseline; the main baseline stays exactly as it was.",
  ["histories"],"all interleavings of registry, write and collaction operations over the two baselines within the bound",
  "No test uses a realm with two populated baselines.",
  [CR+"realm.rs",ENG,BL],[("Realm::baseline / baseline_mut",CR+"realm.rs"),("engine actions address the fork",ENG)],
  ["Realm::baseline(Main)","Realm::baseline(Fork)"])
p("C10","The engine processes each submitted collaction exactly once, in order",
  "Collactions submitted by any number of senders are each processed exactly once, one per apply call, in the order the queue accepted them, and the result handed back is that very collaction. When nothing is pending an apply call changes nothing and reports emptiness (after waiting its timeout, if it has one) or, only once every sender is gone and the queue is drained, disconnection; a bounded queue never holds more than its capacity.",
  ["schedules","histories"],"all operation-level interleavings of several senders, sender drops, ticks and apply calls, for unbounded and bounded queues including capacity zero",
  "No test creates an engine; ordering and exactly-once hold over interleavings.",
  [ENG,CR+"action/mod.rs"],[("crossbeam channel receiver",ENG),("try_apply / apply_timeout",ENG)],
  ["Engine::try_apply","Engine::apply_timeout","ActionSender"],hook="Collaction::new (a collaction cannot be built outside the crate)")
p("C11","A collaction is applied completely or not at all",
  "Applying a collaction either succeeds with all its writes in effect, later ones over earlier ones, or is rejected and leaves both baselines and the realm time exactly as they were before it. A rejected collaction is handed back with its actions unchanged, and applying never panics whatever handles, types and values the actions carry.",
  ["histories","inputs"],"every list of actions up to the bound, failing at every position and for every reason, on states of all 28 types, one after another",
  "No test applies a collaction (writes even panicked); atomicity quantifies over every failure position.",
  [ENG,CR+"action/mod.rs",CR+"action/property.rs",PR+"states/dyn_handle.rs"],[("apply_collaction / reverse_actions",ENG),("swap on write",PR+"states/dyn_handle.rs")],
  ["CollactionResult","realm state before and after"],hook="Collaction::new")
p("C12","State assertions and writes are judged on exact type and current value",
  "An assertion in a collaction passes exactly when its handle is live and the state at that point, including the effect of earlier writes of the same collaction, has exactly the asserted type and value (under that type's own equality); it never changes anything. A write is accepted exactly when its handle is live and its value has the type of the state.",
  ["inputs","histories"],"all pairs of state type and action value type, all boundary values, all positions within bounded action lists",
  "No test applies an assertion; type and value confusion needs all 28 x 28 combinations.",
  [ENG,PR+"dynamic/property.rs",PR+"states/dyn_handle.rs"],[("assert comparison",ENG),("typed swap",PR+"states/dyn_handle.rs")],
  ["CollactionResult","state values"],hook="Collaction::new")
p("C13","Realm time advances exactly by the ticks given and never wraps",
  "Realm time always equals the saturating sum of the ticks given so far; adding and subtracting ticks saturates at the ends of the range instead of wrapping or panicking, and the comparison of times is the numeric one. Applying collactions never changes the time, and converting ticks to seconds agrees with the stated number of ticks per second, truncated for whole seconds.",
  ["inputs","histories"],"all pairs of a dense set of boundary tick values, all tick sequences up to the bound mixed with apply calls",
  "The only time test applies three warps; no tick sequence, boundary or conversion is tested.",
  [TIME,ENG,CR+"realm.rs"],[("Ticks arithmetic",TIME),("Engine::tick",ENG)],["Engine::tick","Realm::time","Ticks conversions"])
p("C14","Time warps are exact, monotone and saturating",
  "The local time a warp assigns to a parent time is (parent - offset), a saturating difference, times scale, with scale in 1024ths and rounding down, saturating at the ends of the range; the default warp is the identity. For a fixed non-negative scale a later parent time never gives an earlier local time (for a non-positive scale, never a later one).",
  ["inputs"],"all triples over a dense set of boundary offsets, scales and parent times, plus complete sub-ranges",
  "One test with three triples; the range has 2^96 triples with saturation and rounding edges.",
  [TIME],[("TimeWarp::apply",TIME),("Mul<TimeScale>",TIME)],["ChannelTime::warp","TimeWarp::apply","Ticks * TimeScale"])
p("C15","A channel holds exactly its keyframes, ordered by time",
  "A channel built from any list of keyframes holds exactly those keyframes, none lost, duplicated or altered, in non-decreasing order of time (keyframes whose time is not a number aside, which do not disturb the others). It keeps them unchanged when stored in an object and read back through any handle, and edits made through a mutable reference are exactly what is read afterwards.",
  ["inputs","histories"],"all keyframe lists up to a bounded length over special times, structured longer lists, for all 28 value types, and bounded edit sequences",
  "No test builds a channel.",
  [PR+"channels/channel.rs",BL],[("Channel::new sorts",PR+"channels/channel.rs")],["Channel::keyframes","Baseline::channel"])
p("C16","Tweens stay between their end points and reach them",
  "Tweening an integer of up to 64 bits from one value to another gives the start at progress 0, the target at progress 1, and in between a value between the two that never moves back as progress grows, whatever the integer type and direction, without panicking. A jump tween gives the start before progress 1 and the target from then on.",
  ["inputs"],"all pairs of 8-bit end points and dense boundary pairs of wider types, on a grid of progress values",
  "Two tests tween from -2 to 8 only; descending and wide ranges were wrong.",
  [PR+"channels/misc.rs"],[("IntTweenable::ease / JumpTweenable::ease",PR+"channels/misc.rs")],["CanTween::ease"],hook="the module is private: pub under cfg(tp_verif)")
p("C17","Values keep their exact type and content in dynamic form",
  "Converting a value, handle, id, state or channel of any of the 28 property types into any of its dynamic forms (owned, shared or mutable reference) and back loses nothing, and the type every form reports is the static type's own. Extracting it as any other type fails, and visiting a dynamic value reaches the variant of its type.",
  ["inputs"],"all 28 types x all dynamic forms x boundary values, and all 28 x 28 extraction pairs",
  "Two tests compare a few u16/u32 values; the tables are written out by hand per type.",
  [PR+"dynamic/__macro.rs",PR+"dynamic/property.rs",PR+"dynamic/primitive.rs",PR+"dynamic/vec.rs",PR+"dynamic/from_impls.rs",PR+"dynamic/borrow_impls.rs",PR+"traits.rs"],
  [("DynEnum! and apply_to_dyn!",PR+"dynamic/__macro.rs"),("prop_type tables",PR+"dynamic/primitive.rs")],["From / TryInto","prop_type()","apply_to_* macros"])
p("C18","Dynamic and static values are equal exactly when type and value are",
  "Comparing dynamic values with each other or with plain values, vectors and slices, in either direction and through references, says equal exactly when both have the same property type and equal values under that type's own equality. Equality is therefore symmetric, and values of different types are never equal.",
  ["inputs"],"all pairs over the boundary values of all 28 types, every implemented operand order and borrow form",
  "Tests compare u16 with u32 only.",
  [PR+"dynamic/eq_impls.rs",PR+"dynamic/primitive.rs",PR+"dynamic/vec.rs",PR+"dynamic/property.rs"],
  [("PartialEq impls",PR+"dynamic/eq_impls.rs")],["== on DynTpProperty, DynTpPrimitive, DynTpVec and their reference forms"])
p("C19","The typed arena is a map from never-reused indices to values",
  "Under any sequence of operations the arena behaves like a map whose keys are issued once: every live index yields its own value, removed indices never resolve again, and length, emptiness, containment and iteration - forwards, backwards or mixed, shared or mutable - cover exactly the live entries with exact remaining lengths. Cloning, reserving and converting preserve contents, and indices compare, order and hash consistently.",
  ["histories"],"all operation sequences up to the bound, from empty, pre-sized, densely and sparsely filled arenas",
  "One unit test samples a single sequence of four operations.",
  [AR],[("wrapper over generational_arena",AR)],["Arena API","Index traits"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"gen_properties_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)),"gen_properties_more.py")) else None
P.sort(key=lambda x:x["id"])
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
