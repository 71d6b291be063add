#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or ["public API results", "flash image read back by a fresh instance"],
                          hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

MAP, Q, LIB, ITEM, BUF = "src/map.rs", "src/queue/mod.rs", "src/lib.rs", "src/item.rs", "src/queue/buffered.rs"
CM, CPS, CPP, CKP = "src/cache/mod.rs", "src/cache/page_states.rs", "src/cache/page_pointers.rs", "src/cache/key_pointers.rs"

p("M01", "Map fetch returns the last stored value",
  "While no flash operation fails or is interrupted, fetching a key from the map returns exactly the value of the last successful store of that key, or nothing if the key was never stored, was removed since, or everything was removed or erased since. This stays true however many page closures, migrations and page erases other keys' stores caused in between, and after the instance is dropped and a new one is created on the same flash.",
  ["histories", "inputs", "configurations"],
  "All sequences of store/fetch/remove/remove-all/erase-all/re-create, all key and value sizes that fit, all page counts >= 2, word sizes and cache types.",
  "Unit tests run a few fixed loops with one geometry each; the property is about every history, in particular which copy of a key survives each migration.",
  [MAP, ITEM, LIB], [("append to the partial page, newest copy wins", "src/map.rs store_item_inner/fetch_item_with_location"), ("live-item migration before a page is erased", "src/map.rs migrate_items")],
  [("page ring", "closed pages oldest to newest, then one partially written page, then at least one erased buffer page", "src/lib.rs PageState")])

p("M02", "Map contents survive power loss at any instant",
  "If power is lost at any instant during any map operation and a new instance is then created on the flash, every key reads back the value it had before the interrupted operation, except that the key being stored may read its new value instead of its old one. Nothing else is lost or changed, also when power is lost again, any number of times, during the operations that follow (including during the repair they trigger). A remove-all may have removed any of the keys; erasing everything is not atomic, an interrupted one has to be repeated.",
  ["crash_points", "histories", "configurations"],
  "Every byte (or word) of every write and erase of every operation, in every reachable flash layout, repeated crashes included.",
  "Tests have no crash enumeration for the map at all except one scripted case; the fuzzer samples crash points but is not run by the tests.",
  [MAP, LIB, ITEM], [("write order header, data, tail with CRC", "src/item.rs write_raw"), ("interrupted migration is redone from the still intact source page", "src/map.rs try_repair"), ("half-erased pages are recognised and erased again", "src/lib.rs get_page_state/try_general_repair")])

p("M03", "Map instance stays correct after a failed or cancelled operation",
  "If a map operation fails because a flash operation returned an error, or its future is dropped before completion, the same instance with its cache can be used on: all keys keep their values, except that a key being stored may have its new value, a key being removed may be gone, and a remove-all may have removed any of them (erasing everything is not atomic, an interrupted one has to be repeated). From then on all operations behave as on an instance freshly created on that flash, whatever cache is in use, and nothing acknowledged afterwards is lost.",
  ["fault_sequences", "schedules", "histories", "configurations"],
  "Every flash operation at which an error can be returned (before, in the middle of, or after its effect) or the future dropped, in every history, for every cache type; several such faults in a row.",
  "Tests inject one failure at a time in one configuration; the interplay of stale cache contents with the next operation kind is not enumerated.",
  [MAP, CM], [("dirty flag makes the next operation drop the cache", "src/cache/mod.rs DirtTracker, is_dirty checks in src/map.rs")],
  [("dirty flag", "cache may disagree with flash", "src/cache/mod.rs")])

p("M04", "A removed key stays removed; interrupted removal never revives old data",
  "After a successful removal of a key (or of all keys), fetching it returns nothing and iterating does not yield it, until it is stored again, across any later stores, migrations, power losses and instance re-creation. If a removal is interrupted by power loss, a flash error or cancellation, the key reads either its latest value or nothing, never an older value, and no other key changes.",
  ["histories", "crash_points", "fault_sequences"],
  "All histories with several old copies of the key spread over pages, all interruption points of the removal and of what follows.",
  "Old copies stay in flash, so one wrong deletion order or migration decision revives them; tests cover a handful of layouts.",
  [MAP, ITEM], [("all copies are deleted, oldest page first", "src/map.rs remove_item_inner"), ("deleted header", "src/item.rs erase_data")])

p("M05", "Map iteration yields every current entry",
  "Iterating over the map yields, for every key that is present, its current value as the last item yielded for that key, yields only values that were stored for that key and no key that is absent, and ends. If reading the flash fails during iteration, an error is reported instead of entries being left out silently.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "All histories and page layouts, including layouts left by power loss or failed operations, all caches, a read failure at any point.",
  "Tests iterate a few hand-made layouts; nothing checks order of duplicates across wrapped pages or failing reads.",
  [MAP], [("iteration starts at the page after the last used one and wraps", "src/map.rs fetch_all_items, MapItemIter::next")])

p("M06", "Map refuses a store only when it is really full, without loss",
  "A store that is refused because the storage is full or the item too big changes no key's value, and the map stays usable. A store of an item is never refused as full while the newest copies of all present keys plus the new item fit together into one page.",
  ["histories", "inputs", "configurations"],
  "All histories, item sizes and page counts; refused stores at every fill level, repeated.",
  "The refusal path performs several page closures and migrations before giving up; tests only fill once with equal sizes.",
  [MAP], [("bounded number of page advances", "src/map.rs store_item_inner recursion_level"), ("migration of live items", "src/map.rs migrate_items")])

p("Q01", "Queue is FIFO: each pushed item is delivered exactly once, in order",
  "While no flash operation fails, popping yields exactly the items whose push succeeded, byte for byte, each once, in push order; peeking and iterating show the same items in the same order and change nothing. A refused push adds nothing and loses nothing.",
  ["histories", "inputs", "configurations"],
  "All interleavings of push, peek, pop, iterate and re-create, all item sizes including empty, all page counts >= 1, word sizes and caches.",
  "Tests use regular push/pop patterns; wrap-around combined with partly popped pages and mixed sizes is not covered exhaustively.",
  [Q, ITEM], [("youngest/oldest page search on the page ring", "src/queue/mod.rs find_youngest_page, find_oldest_page"), ("popped items are marked in flash", "src/queue/mod.rs QueueIteratorEntry::pop")])

p("Q02", "Queue contents survive power loss at any instant",
  "If power is lost at any instant during any queue operation and a new instance is then created on the flash, the queue holds exactly the items it held before, in order, except that the item being pushed may or may not be there at the end, and the item being popped may or may not be gone. With permission to overwrite, only the oldest items that the push was allowed to drop may additionally be gone; all this also holds under further power losses during what follows. Erasing everything is not atomic, an interrupted one has to be repeated.",
  ["crash_points", "histories", "configurations"],
  "Every byte or word of every write and erase of every operation in every reachable layout, repeated crashes included.",
  "No test enumerates crash points for the queue.",
  [Q, LIB, ITEM], [("close before use of next page", "src/queue/mod.rs push_inner"), ("re-erase of half-erased pages", "src/lib.rs try_general_repair")])

p("Q03", "Queue instance stays correct after a failed or cancelled operation",
  "If a queue operation fails because a flash operation returned an error, or its future is dropped before completion, the same instance with its cache can be used on: the queue holds what it held before, except that an item being pushed may be there, an item being popped may be gone, and a push with permission to overwrite may have dropped what it was allowed to drop (erasing everything is not atomic, an interrupted one has to be repeated). From then on all operations behave as on an instance freshly created on that flash, whatever cache is in use, and nothing acknowledged afterwards is lost, duplicated or reordered.",
  ["fault_sequences", "schedules", "histories", "configurations"],
  "Every flash operation of every operation failing or being cancelled before, during or after its effect; several faults in a row; every cache type.",
  "Failure followed by continued use of the same cached instance is only sampled by the fuzzer.",
  [Q, CM], [("dirty flag drops the cache", "src/cache/mod.rs, is_dirty checks in src/queue/mod.rs")])

p("Q04", "Queued data is only dropped with permission, oldest first, when needed",
  "Without permission to overwrite, no push ever removes queued data: it succeeds or reports a full storage and leaves the queue unchanged. With permission, data is dropped only when the item could not be pushed otherwise, and only oldest items, at most those of one flash page; with permission, an item that fits into a page is never refused as full.",
  ["histories", "inputs", "configurations"],
  "All fill levels, sizes and page counts including one page, with partly popped pages.",
  "Tests check one scripted overwrite; the amount dropped is not checked in general.",
  [Q], [("oldest page is erased only when not empty and permitted", "src/queue/mod.rs push_inner")])

p("Q05", "Selective removal while iterating removes exactly the chosen items",
  "Iterating over the queue yields all items oldest to newest once, and popping any subset of them during iteration removes exactly those items and no others. The remaining items keep their order for every later iteration, peek and pop, and for later pushes.",
  ["histories", "inputs"],
  "All subsets popped during one or several (also abandoned) iterations, over all layouts and caches.",
  "The number of pop patterns is exponential; tests run a few.",
  [Q], [("pages are erased early only when everything before was popped", "src/queue/mod.rs PreviousItemStates, next_inner")])

p("Q06", "Reported free capacity agrees with what a push accepts",
  "When the queue reports the largest size that fits, a push without overwrite permission of that size succeeds, one byte more does not, and when it reports that nothing fits, no push does. The reported remaining space is never less than what the next accepted push occupies, never exceeds the total data area, and is not reduced by popping.",
  ["histories", "inputs", "configurations"],
  "All queue states and geometries; queries after every operation.",
  "Tests compare with hard-coded numbers in two layouts; the agreement with push for every state is not checked.",
  [Q, ITEM], [("free space search", "src/queue/mod.rs find_max_fit_inner, space_left_inner"), ("available bytes", "src/item.rs available_data_bytes")])

p("Q07", "Popped space becomes usable again",
  "Once every item has been popped, a push of any item that fits into a page succeeds without permission to overwrite, for any number of pages. More generally, with items popped in order, a push is not refused while at least two pages hold none of the remaining items.",
  ["histories", "configurations"],
  "Unbounded push/pop histories over all fill patterns and page counts >= 1.",
  "A page that is never reclaimed shows only after specific fill and pop patterns.",
  [Q, ITEM], [("empty page detection and early page erase", "src/item.rs is_page_empty, src/queue/mod.rs next_inner/push_inner")])

p("C01", "Caches never change behaviour",
  "For every choice of page-state, page-pointer and key-pointer cache, of any capacity, each operation, given a data buffer of the documented size, returns the same result and leaves the same stored contents as without any cache, in fault-free histories as well as after failed or cancelled operations. This includes handing the cache of a destroyed instance to a new instance on the unchanged flash, and erasing everything through the instance.",
  ["histories", "configurations", "fault_sequences"],
  "All cache combinations run in lockstep over the same histories and faults.",
  "Cache agreement is asserted only under an internal feature in fuzzing; combinations and capacities are numerous.",
  [CM, CPS, CPP, CKP], [("dirty tracking", "src/cache/mod.rs"), ("calculated page states", "src/cache/page_states.rs"), ("furthest written / first non-erased pointers", "src/cache/page_pointers.rs"), ("key pointer LRU", "src/cache/key_pointers.rs")])

p("R01", "Any interruption is recoverable: no corruption error, no panic",
  "After any number of power losses, failed flash operations and cancellations at arbitrary points, including during repairs (an interrupted erase of everything being repeated), the next operation never reports corruption or an internal bug, never panics and never loops. The storage then accepts stores and pushes again within its capacity.",
  ["crash_points", "fault_sequences", "histories"],
  "Chains of interruptions at every point of every operation and of the repair following it.",
  "Nested interruptions (crash inside repair inside recovery) are not tested at all.",
  [MAP, Q, LIB], [("automatic repair and single retry", "src/lib.rs run_with_auto_repair, src/map.rs try_repair")])

p("F01", "Flash is only accessed inside the given range, aligned",
  "Every read, write and erase issued to the flash lies completely inside the flash range given at construction, is aligned and sized to the flash's read, write or erase granularity and is not empty. Flash content outside of the range never changes and never influences results.",
  ["histories", "configurations", "fault_sequences"],
  "Every flash access of every operation, for all ranges, word sizes, item sizes, caches, and after faults.",
  "Tests mostly use ranges covering the whole mock flash, so an access outside of the range is not visible.",
  [LIB, ITEM, MAP, Q], [("address calculation and rounding", "src/lib.rs calculate_page_*, src/item.rs")])

p("F02", "A flash word is never written twice, except to delete an item",
  "Between two erases of a page, each of its write units is written at most once, except that deleting an item (remove, pop) writes the item's header once more, only turning bits to zero. Storing, fetching, pushing, peeking, iterating and the repairs they trigger never write to a unit that has been written since its last erase.",
  ["histories", "crash_points", "configurations"],
  "Every write of every operation in all histories with and without interruptions.",
  "The mock flash rejects a third write but tolerates a second one in most tests, and tests do not combine this with crashes.",
  [ITEM, LIB], [("append-only page use, markers in separate words", "src/item.rs find_next_free_item_spot, src/lib.rs close_page")])

p("F03", "Pages are erased in turn: wear is level",
  "As long as no operation is interrupted, fails or is stopped by a too small buffer, pages are erased in cyclic order, so that at any time the numbers of erases of any two pages since the range was blank or erased as a whole differ by at most one. Operations that do not need space (fetch, remove, peek, iteration, requests rejected as too big) never erase, apart from the queue reclaiming completely popped pages.",
  ["histories", "configurations"],
  "All fault-free histories of a map or queue starting from an erased range.",
  "Tests compare average erases in two scenarios only.",
  [MAP, Q], [("page ring order", "src/lib.rs next_page, get_pages")])

p("F04", "On-flash format is the documented one, in both directions",
  "What is written to flash is exactly the documented representation: page markers in the first and last word, items back to back with checksum, length, length checksum, padded data, and a zero checksum for deleted items. Any flash image in this representation is read back with exactly the contents it denotes, so data written by other releases of the same format stays readable.",
  ["inputs", "histories", "configurations"],
  "All item lengths and contents, word sizes, page layouts; images written by the library and images constructed independently of it.",
  "Tests write and read with the same code, so a symmetric change of the format passes them.",
  [ITEM, LIB], [("item header encoding and checksums", "src/item.rs ItemHeader::write/read_new, crc16, adapted_crc32"), ("page markers", "src/lib.rs")])

p("F05", "Damaged items are ignored and affect nothing else",
  "If bits of a stored item's data or data checksum change, that item is treated as not present (never returned with altered contents) and all other items are still returned unchanged; single changed bits in page markers have no effect. For arbitrarily damaged flash contents, no operation panics, loops or accesses flash out of range, and every value returned was stored before.",
  ["inputs", "fault_sequences", "histories"],
  "All positions of bit changes in all layouts; arbitrary flash contents.",
  "Tests corrupt a few hand-picked bytes; the random-flash fuzzer is not part of the tests.",
  [ITEM, LIB], [("data and length checksums, skipping of damaged items", "src/item.rs read_item, traverse"), ("half-marker rule", "src/lib.rs get_page_state")])

p("F06", "A single transient read error in item data or length is masked",
  "If one read of an item's data, or of its length field, returns wrong bits once while the flash content is intact, the operation gives the same result as without the glitch. No item is skipped, deleted, overwritten or reported damaged because of it.",
  ["fault_sequences", "histories"],
  "Each single read of each operation glitched in turn, in all layouts.",
  "Tests have no flash that returns different bytes for the same read.",
  [ITEM], [("one re-read before an item is treated as damaged", "src/item.rs read_new, read_item retry")])

p("E01", "Rejected requests change nothing",
  "An operation rejected because the item is too big, the given buffer is too small or (de)serialization fails returns the corresponding error, in every state, and leaves the stored contents unchanged (a removal stopped by a too small buffer may have removed already). A buffer is only called too small when it is smaller than the longest item in use, rounded up to the flash word, and the size asked for is larger than the one given and no more than that. The same instance then continues to work as if the rejected request had not been made.",
  ["inputs", "histories", "configurations"],
  "All buffer sizes and item sizes around the limits, in all states, for all operations and caches.",
  "Tests check the error in one state and not what follows it.",
  [MAP, Q, ITEM], [("size checks before writing", "src/map.rs store_item_inner, src/queue/mod.rs push_inner, src/item.rs read_item")])

p("B01", "RAM-buffered queue keeps order and applies its overflow policy exactly",
  "The buffered queue delivers items in enqueue order, flash items before RAM items, each exactly once. A full RAM buffer refuses the item and changes nothing under the error policy, and under the discard policy drops just as many oldest buffered items as needed; the reported counts and free bytes match the buffered items.",
  ["histories", "inputs"],
  "All sequences of enqueue (both policies), drain, pop, peek with all item sizes and buffer sizes, wrap-around included.",
  "Tests use a few fixed ring sizes and sequences; wrap-around of the length prefix is sampled.",
  [BUF], [("byte ring with length prefixes", "src/queue/buffered.rs RamRing")])

p("B02", "Draining RAM-buffered items never loses or duplicates them",
  "An item leaves the RAM buffer only after it is in flash: if a drain fails (full storage, flash error, cancelled, buffer too small) the item stays pending and a later drain stores it in order and once (only if the failed or cancelled flash write had in fact taken effect may that one item be delivered twice). An item that is pending is never reported as absent, and a drain that leaves items pending reports an error.",
  ["fault_sequences", "histories", "schedules"],
  "Failures and cancellations at each flash operation of a drain, full flash, too small buffers, at every fill level.",
  "Tests drain successfully; failing drains are tested once.",
  [BUF], [("peek, push to flash, then discard", "src/queue/buffered.rs drain_one, pop, peek")])

p("B03", "Concurrent enqueues cannot corrupt the shared buffer's order",
  "Items enqueued from an interrupt at any point during a drain, pop or peek are neither lost nor duplicated nor reordered, except for oldest buffered items dropped by the discard policy. An item is never dropped other than to make room for a new one.",
  ["schedules", "histories"],
  "All interleavings of enqueue calls (both policies) with the steps of a drain.",
  "Tests never enqueue while a drain is waiting for flash.",
  [BUF], [("ring access in a critical section, flash write outside of it", "src/queue/buffered.rs SharedRamRing::drain_one")])

p("B04", "A waiting drain task is always woken for new data",
  "If an item is enqueued into the shared buffer, a task waiting for data, or starting to wait later while the item is still buffered, is woken and can drain the item. No enqueue made since the last completed wait is missed, whatever the order of enqueue, wait and drain; and a wait does not complete when nothing was enqueued since the last completed wait.",
  ["schedules"],
  "All interleavings of enqueue, wait and drain_all of one waiter and several producers.",
  "Missed wake-ups depend on the schedule; tests cover two orders.",
  [BUF], [("signal after successful enqueue", "src/queue/buffered.rs SharedRamRing::enqueue/wait")])

p("G01", "Unusable configurations are rejected, usable ones accepted",
  "The fallible configuration constructors return the documented error for each range that is not page aligned, too small (or reversed), for pages too small to hold any item and for too large words, and accept every other range, without panicking. An accepted configuration is usable: at least one item can be stored and read back.",
  ["configurations", "inputs"],
  "All start/end offsets and all combinations of read, write and page size.",
  "Tests check one example per error.",
  [MAP, Q], [("try_new checks", "src/map.rs MapConfig::try_new, src/queue/mod.rs QueueConfig::try_new")])

p("K01", "Built-in key and value types round-trip and reject short buffers",
  "Every built-in key and value type serializes to its documented byte layout, deserializes to an equal value while reporting exactly the number of bytes used, also when more bytes follow, and two different keys never have equal encodings. Serializing into a buffer that is too small and deserializing from too few bytes give an error, never a panic.",
  ["inputs"],
  "All built-in types, boundary values, lengths and buffer sizes.",
  "Tests cover a few types with one value each; short buffers and truncated input are not enumerated.",
  [MAP, "src/alloc_impl.rs", "src/arrayvec_impl.rs", "src/heapless_impl.rs", "src/heapless_09_impl.rs"],
  [("Key and Value implementations", "src/map.rs, src/*_impl.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
