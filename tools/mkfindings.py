"""Writes known_findings.json: no open finding; every defect found so far was repaired in /repo."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C01 68ac309 attaching, closing or collecting a listener while an event fires raised out of fire or skipped other listeners
C03 bb27a10 a listener attached with an owner that evaluates to false was dropped with its token although the owner lived
C02 2e7c69c a listener that raised kept the listeners after it from being called
C02 dccf2e4 fire_all called closed listeners and its answer was wrong without listeners
C06 d4603f8 a queued task that raised was never marked done, so join waited for ever
C07 dfb0bd7 a keyed task that raised dropped the tasks of the other keys taken with it
C08 936edd7 run_all and run_one waited for ever when another thread took the last task
C10 3508563 stepping the wall clock made the dispatcher call too early or not for a long time
C09 75d9f44 a waiting trigger could wait for ever or return before its own invocation
C11 7c17169 a change made while a debounced value was being emitted was lost
C12 3a49e42 a sampled stream emitted an old value or lost a change made while it sampled
C14 e0e245b the value of an older function replaced a newer one; the value changed after close
C16 a88b5bc rebuilding a filtered list announced the removal of another item than the one removed
C16 8f03cd5 an item whose sort key changed stayed where it was
C16 29f5f60 items changed or moved in the source during grouped changes stayed where they were
C16 68364f3 a filtered list that is reversed without a sort key lost the source order
C17 370f308 grouped changes made by two threads left the filtered list suspended or updated it too early
C17 90d1619 after a sort or filter function failed the order stayed wrong
C17 0bcf69f after a filter failed for one item another item was inserted at the wrong index
C17 17b2a8f changing filter and sort key together let observers see a list with only one of the two
C17 2e0bde2 after a failed update an item was listed twice
C17 872c898 after a failed update the list did not catch up with the next change
C18 5b73c83 a flattened list shifted selections at the index in one source list
C18 b380b4e releasing a selection released another one with equal content
C18 0144e26 extending a selection used the anchor of an item that had been removed
C18 3609469 a single selection held two indexes after it was cleared
C19 8336e27 a relationship with a storage key was written under its own name and not read back
C19 c49309a clearing a property with a storage key left it in the storage
C19 b7ffcd7 a storage error during insert, remove or replace left memory and storage different
C20 b2d9980 changes of a replaced item went on to be written to the storage
C20 ce7ae2c subscribing without a registered function to a registered object raised
C20 7418823 a failing or further subscribing subscriber kept others from being told, or had them told twice
C21 717776d two threads using the registry first made two registries and lost a component
C21 3ae1bf2 a single component was returned regardless of priority
C21 fe6778f unregistering a component announced an empty set of types
C21 609ac9e iterating looked up components while registering or unregistering raised
C22 2a9e124 a record with a float field could not be built
C22 7b9c51e a field with a default ignored the given value, so that a copy lost changes
C22 901c3fe an array of basic values could not be converted to plain data or copied
C22 cf34b1a loading plain data into an array announced nothing, lost later changes and failed for basic values
C22 7863aa9 closing an array model raised
C22 86bb709 testing membership of an array field raised
C22 1e5d9c5 after inserts and removes a removed item was still announced or a present one no longer
C08 c8d1185 an explicit runner took the marker that ends a pool thread at close, so the thread never ended
C08 a86bc2f a function that is false in a condition was never run by the thread pool
C16 e32eef0 a deep copy of a text filter failed when asked whether an item matches
C24 9ec340e inserting or removing an item of a recorded relationship in front of another recursed for ever, and changes were replayed at the positions their objects had last
C24 d6da2e0 setting or clearing an item of a recorded object raised and was not replayed
C24 6bcb4a4 a replay used the values of the time of the replay: children of an inserted object were inserted twice, changes after closing were replayed
C23 bb6c3db a bound tuple element or attribute that is None was converted instead of replaced by the fallback
C25 535a2d7 copying an object together with a reference to its item made two copies of the item
C25 65dcd1c an object with a hidden item that is no attribute could not be copied
C26 3e5ad34 a flattened list kept the items removed from its source
C16 c418988 inserting or removing by a negative or too large index was notified with that index: flattened lists and selections went wrong
C22 e5a25eb deleting a slice of an array field raised after removing the items and announced nothing
"""
fixed = []
for line in FIXED.strip().splitlines():
    p, c, what = line.split(" ", 2)
    fixed.append(f"fixed: property={p} {c} {what}")
json.dump(dict(findings=[], fixed=fixed), open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
