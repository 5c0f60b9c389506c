#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run `python3 tools/props.py` to rewrite it."""
import json, os
I = "include/maidsafe/common/"
S = "src/maidsafe/common/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Active object runs every sent task exactly once, in order, and drains on exit",
  "Every task whose Send to an active object returned before the object's destruction began is executed exactly once, on the object's own single thread, never two at a time, and in an order that respects each sender's order of Sends (and any ordering between senders).  Destruction waits until all those tasks have finished and always terminates; a task may itself Send.  No schedule deadlocks, loses or duplicates a task, or contains a data race.",
  ["schedules"], "all interleavings of up to three sender threads, the worker and the destructor within a preemption bound",
  "A free-running test sees a handful of the interleavings of sender, worker and destructor; lost wake-ups, dropped last tasks and shutdown deadlocks need one particular one.",
  [I+"active.h", S+"active.cc"],
  [("mutex-protected FIFO plus condition variable", S+"active.cc Active::Send / Active::Run"), ("poison functor queued by the destructor", S+"active.cc Active::~Active")],
  ["execution log of the tasks", "return of the destructor"],
  [("functors_", "tasks sent and not yet executed", I+"active.h"), ("running_", "cleared by the last functor", I+"active.h")])

prop("C02", "The thread-safe queue is a linearizable FIFO with no lost wake-up",
  "For every concurrent use of the thread-safe queue by any number of producers and consumers, the results of Push, TryPop, WaitAndPop, Empty and Size are those of some sequential order of the calls that respects real time: each pushed element is popped at most once, first in first out, and TryPop fails (leaving its argument unchanged) only if the queue was empty.  A WaitAndPop returns as soon as there is an element for it; no waiter stays blocked while the queue is non-empty and nobody else is going to take the element.  No execution has a data race.",
  ["schedules", "histories"], "all interleavings within a preemption bound of harnesses of 2-4 threads with 1-3 operations each, plus all sequential operation sequences to a depth",
  "The class has no unit test at all; lost wake-ups and double pops need a particular interleaving.",
  [I+"safe_queue.h"], [("one mutex around the queue, one notify per push, wait in a loop", I+"safe_queue.h")], ["return values and popped elements"])

prop("C03", "Stopping an I/O service completes the posted work, once, from any thread",
  "When Stop (or the destructor) of a threaded I/O service returns, every handler posted before that Stop began has been executed exactly once and all service threads have been joined; the reported thread count is the constructor's argument before and zero after.  Concurrent and repeated Stops from outside threads all return without deadlock, Stop called from one of the service's own threads throws cannot_invoke_from_this_thread, leaves the service running, and the service can still be stopped afterwards, and constructing with zero threads throws invalid_argument, and constructing one whose threads cannot all be started throws, leaving none behind.",
  ["schedules"], "all interleavings within a preemption bound of 1-2 service threads with posting and stopping threads, for asio and boost::asio services",
  "Tests stop a service once from one thread on one schedule.",
  [I+"asio_service.h"], [("work object keeps run() alive; Stop resets it and joins", I+"asio_service.h IoService::Stop")], ["handler log, thread count, exceptions"])

prop("C04", "Buffered data is retrievable, with its latest value, until deleted or evicted",
  "Under every interleaving of Store, Get and Delete with the background writer, Get of a key whose latest Store completed and was neither deleted nor handed to the pop functor returns exactly the latest stored value, whether it is held in memory, on disk, or is in transit between the two.  Get of a key that was never stored, or was deleted and not stored again, fails with an error instead of returning stale data.  No schedule deadlocks, loses a value, or leaves a wrong value behind.",
  ["schedules", "histories"], "all interleavings within a preemption bound of client operations with the background writer, and all sequential operation sequences to a depth, with memory and disk limits small enough to force every transition",
  "The tests run one or two schedules with large values; transitions between memory, in-transit and disk need precise timing.",
  [I+"data_buffer.h", S+"data_buffer.cc"], [("memory index, disk index, storing states, in-transit map", S+"data_buffer.cc")], ["values returned by Get, errors thrown"],
  [("StoringState", "not started / started / cancelled / completed", I+"data_buffer.h")])

prop("C05", "The data buffer keeps its limits, evicts oldest-first and frees what it deletes",
  "The bytes held in memory and the bytes held on disk never exceed the respective maximum (a lowered maximum applies from the next Store on); a value bigger than the disk maximum is rejected.  With a pop functor, excess elements are handed over oldest-on-disk first, each exactly once, with the right key and value, and take no disk space afterwards; without one, a Store that does not fit blocks until enough is deleted and then completes.  Deleting (by key or by predicate) removes exactly the matching elements, their files and their share of the disk usage.  If a file cannot be removed, that is reported and the element stays on disk with its share of the usage.",
  ["schedules", "histories"], "all sequential operation sequences to a depth and all interleavings within a preemption bound for small limits",
  "Accounting errors only show after a specific history (delete while being written, overwrite, predicate delete, lowering a limit).",
  [I+"data_buffer.h", S+"data_buffer.cc"], [("HasSpace / current usage counters / FindOldestOnDisk / RemoveFile", S+"data_buffer.cc")], ["pop functor calls, files in the buffer directory, blocking or not of Store, Get results"])

prop("C06", "Data buffer failures are reported, and shutdown always terminates",
  "If the disk fails at any point, the operation affected or a later one reports an error instead of returning wrong or truncated data; values not affected by the failure stay retrievable or fail with an error.  Destruction of the buffer terminates from every state, joins the background writer and, when asked to, removes the buffer directory; nobody stays blocked.  Invalid limits (memory greater than disk, at construction or when changed) are rejected with an error and leave the buffer unchanged.",
  ["fault_sequences", "schedules"], "every single (and pairs of) failing file operation(s) of short histories, and all interleavings of shutdown with a blocked writer within a preemption bound",
  "Tests remove the directory at one convenient moment; failures at the other file operations and shutdown races are never exercised.",
  [I+"data_buffer.h", S+"data_buffer.cc"], [("worker future rethrown by every call, StopRunning wakes the waiters", S+"data_buffer.cc")], ["exceptions, termination, directory contents"])

prop("C07", "The LRU cache behaves as the reference cache for every operation history",
  "For every sequence of Add, Get, Check, Delete and passage of time, the cache returns the value first added for a present key, never holds more than its capacity, and when full evicts the least recently used entry (a Get of a present key counts as use, a Check or a repeated Add does not).  An Add that finds expired entries at the old end of the usage order removes them, no unexpired entry is removed for reasons of age, and a missing key yields no_such_element.  The key-only filter follows the same rules.",
  ["histories"], "all operation sequences to a depth over small key sets, capacities, time-to-live values and clock advances",
  "Unit tests use a few scripted histories and real sleeps; eviction-order errors depend on the exact sequence of uses and expiry.",
  [I+"containers/lru_cache.h"], [("usage list kept in step with the map", I+"containers/lru_cache.h")], ["Get/Check/size results"])

prop("C08", "The version tree follows its documented rules for every operation history",
  "For every sequence of version insertions, branch deletions and queries, the tree of versions answers Get, GetBranch and every error exactly as its documented rules prescribe (parents, orphans and re-parenting, root replacement, limits on versions and branches, duplicates, second roots and cycles rejected), whatever order versions arrive in.  An operation that throws leaves the tree unchanged.",
  ["histories"], "all operation sequences to a depth over a small set of version names and small limits, compared with a reference tree",
  "The unit test drives one big tree; wrong behaviour at a limit, for an orphan that becomes the root's parent, or for out-of-order arrival needs a specific history.",
  [I+"data_types/structured_data_versions.h", S+"data_types/structured_data_versions.cc"], [("versions map, root, tips of trees, orphans", S+"data_types/structured_data_versions.cc")], ["Put result, Get, GetBranch, exceptions"])

prop("C09", "A version tree survives serialisation, swap and merging",
  "Parsing the serialised form of any version tree gives a tree that answers every query and every later operation as the original does; swapping or assigning trees exchanges them completely.  Merging a serialised tree into another yields the union of both trees and the incoming limits, or throws and leaves the target unchanged.  Malformed or truncated serialised input is rejected with an error and never crashes.",
  ["histories", "inputs"], "all trees reachable by short histories, all ordered pairs of them from a smaller set, all truncations and single-byte changes of their serialised form",
  "Tests serialise one tree; orphans, empty trees, merge conflicts and damaged input are not covered.",
  [S+"data_types/structured_data_versions.cc", S+"data_types/structured_data_versions_cereal.h"], [("branch-wise serialisation with fork counts", S+"data_types/structured_data_versions.cc BranchToCereal/BranchFromCereal"), ("ApplySerialised replays branches", S+"data_types/structured_data_versions.cc")], ["query results after the round trip"])

prop("C10", "Hex encoding is lossless and decoding rejects everything else",
  "For every byte string, hex encoding yields exactly two lowercase hex digits per byte and decoding returns the original bytes, for every container type.  Decoding accepts exactly the strings of even length made of the digits 0-9 and a-f and throws invalid_conversion for every other input, without reading outside its tables.  The abbreviated form of an encoding is the encoding itself up to 14 characters and otherwise its first six and last six characters joined by two dots.",
  ["inputs"], "all byte strings up to length 2 and all single-byte changes of longer ones; all strings up to length 2 over all 256 characters and up to length 4-6 over a representative alphabet",
  "Tests encode random data and check a few bad inputs; every character value in every position matters.",
  [I+"encode.h", S+"encode.cc"], [("lookup tables", I+"encode.h"), ("Decode", S+"encode.cc")], ["encoded/decoded strings, exceptions"])

prop("C11", "Base64 encoding is lossless, standard, and decoding rejects malformed input",
  "For every byte string, base64 encoding yields the RFC 4648 encoding (standard alphabet, padded) and decoding returns the original bytes, for every container type.  Decoding throws invalid_conversion for every input that is not a padded base64 string: wrong length, characters outside the alphabet, or padding anywhere but as the last one or two characters.",
  ["inputs"], "all byte strings up to length 3 (16.8 million in the thorough tier) and all strings up to 4 characters over a representative alphabet, plus all positions in longer strings",
  "Tests check a few vectors; the tail and padding cases interact with every byte value.",
  [I+"encode.h", S+"encode.cc"], [("Encode", I+"encode.h"), ("Decode", S+"encode.cc")], ["encoded/decoded strings, exceptions"])

prop("C12", "Identities have exactly 64 bytes and their XOR metric is consistent",
  "An identity is either uninitialised or exactly 64 bytes, however it is created; creation from data or encodings of any other size throws, and hex, base64 and binary encodings round-trip.  CloserToTarget orders identities by XOR distance exactly as comparing the XORed byte strings does (irreflexive, asymmetric, transitive), and CommonLeadingBits returns the exact number of equal leading bits.",
  ["inputs"], "all 65536 pairs of byte values at every byte position for the metric; all creation sizes around the limit in every encoding; all triples over a set of boundary identities",
  "A 256x256 table and 64 positions cannot be covered by sampled pairs.",
  [I+"identity.h", S+"identity.cc", S+"identity_common_bits_matrix.h"], [("size checks in the constructors and MakeIdentity", S+"identity.cc"), ("common bits lookup matrix", S+"identity_common_bits_matrix.h")], ["results and exceptions"])

prop("C13", "Bounded strings and tagged values never hold an out-of-bounds value",
  "A bounded string that reports itself initialised has a size within its bounds, whatever sequence of constructions, copies, moves, assignments, swaps and parses produced it, and any operation that would violate the bounds throws outside_of_bounds (parsing_error when parsing) and leaves the target unchanged; reading an uninitialised value throws uninitialised.  Comparison operators of bounded strings and tagged values agree with those of the underlying values (with uninitialised values ordered consistently), copies are equal and independent, and a bounded string is printed as the abbreviated hex form of its bytes.",
  ["histories", "inputs"], "all operation sequences to a depth on two or three objects, for several bounds, over all sizes around the bounds",
  "Tests check single operations; combinations such as a moved-from or failed-assigned object being used again are not covered.",
  [I+"bounded_string.h", I+"tagged_value.h"], [("OutwithBounds check in each constructor", I+"bounded_string.h")], ["IsInitialised, string(), comparisons, exceptions"])

prop("C14", "Data objects verify themselves and survive storage and transfer",
  "An immutable data object's name is always the SHA-512 hash of its value and its type identifier is fixed; a mutable data object keeps the name it was given and its value.  Serialising and parsing any data object (directly or through a pointer to the base class) gives an object with the same name, type and value, and an object whose stored name does not match its content, or whose serialised form was truncated, is rejected when parsed rather than accepted.  Uninitialised or moved-from objects report it and throw when used.",
  ["inputs", "histories"], "all object kinds and sizes in a small set, all truncations and all single-byte changes of the serialised forms, all short sequences of copy/move/assign",
  "Tests check one random value per kind and no damaged serialised form.",
  [I+"data_types/data.h", S+"data_types/data.cc", I+"data_types/immutable_data.h", S+"data_types/immutable_data.cc", I+"data_types/mutable_data.h", S+"data_types/mutable_data.cc"], [("name computed from or checked against the value", S+"data_types/immutable_data.cc"), ("validity check before use", S+"data_types/data.cc")], ["Name, Value, exceptions"])

prop("C15", "Binary serialisation is lossless and rejects truncated input",
  "Parsing what was serialised gives back equal objects for every supported type and nesting (integers, strings, vectors, maps, optionals, paths, IP addresses (the scope of an IPv6 address excepted), flyweights, bounded strings), one after another from one stream, and consumes exactly the bytes written.  Every proper prefix of a serialised object is rejected with an exception, with no access outside the buffer; equal objects have equal serialised forms.",
  ["inputs"], "all values from boundary sets for each type, all pairs/nestings in one stream, and all truncation points",
  "Tests serialise a few values and never truncate.",
  [I+"serialisation/binary_archive.h", I+"serialisation/serialisation.h", I+"serialisation/types/asio_and_boost_asio.h", I+"serialisation/types/boost_filesystem.h", I+"serialisation/types/boost_flyweight.h"], [("sputn/sgetn with size check", I+"serialisation/binary_archive.h")], ["parsed objects, exceptions"])

prop("C16", "SipHash gives the reference SipHash-2-4 value for every message and chunking",
  "For every key and every message of any length, the hash equals the published SipHash-2-4 of that message, however the message is split into successive updates (including empty ones) and whatever the alignment of the input.  Finalising does not depend on earlier hashes, and copies of a hasher continue independently.",
  ["inputs", "histories"], "all message lengths 0..N, all splits into up to three or four chunks for every length up to a bound, all single-bit changes of keys, compared with an independent implementation and the published vectors",
  "The existing test covers two lengths and is not even built here; the tail and buffering code has a case per length and split.",
  [I+"hash/algorithms/siphash.h", S+"hash/algorithms/siphash.cc"], [("Update/Finalize with an 8-byte remainder buffer", S+"hash/algorithms/siphash.cc")], ["returned hash values"])

prop("C17", "Structural hashing is consistent with equality and unambiguous about structure",
  "Equal values hash equally with equal seeds, whatever container representation, capacity, iteration source or storage offset they have (including positive and negative zero), and hashing a sequence of values feeds the algorithm every element and, for every variable-length container, its length.  Values that differ in content, in length, or in where one element ends and the next begins feed different input to the algorithm.  Different seeds give independent hash functions.",
  ["inputs"], "all values from small domains of each supported type and nesting, pairwise, using a recording algorithm in place of the hash",
  "Tests compare a few chosen values; ambiguity needs particular pairs of values.",
  [I+"hash.h", I+"hash/hash_range.h", I+"hash/hash_numeric.h", I+"hash/hash_tuple.h", I+"hash/hash_pair.h", I+"hash/algorithms/hash_algorithm_base.h", I+"hash/hash_data_range.h", I+"hash/wrappers/seeded_hash.h"], [("HashAppend overload set", I+"hash/*.h")], ["bytes fed to the algorithm, hash values"])

prop("C18", "A scope guard runs its action exactly once unless released",
  "For every sequence of setting, replacing, reverting and releasing the action of a scope guard, and however the scope is left (normally or by exception), exactly the action that was set last runs, exactly once, at the end of the scope, and none runs after a release.  A value-reverting action restores the value the variable had when the action was created.  If storing the action throws, the action is still run once.",
  ["histories", "fault_sequences"], "all sequences of operations to a depth, each exited normally and by exception, with a failing copy or allocation injected at each point",
  "Tests cover four scripted cases and no failure during construction.",
  [I+"on_scope_exit.h"], [("destructor runs action_ if set", I+"on_scope_exit.h")], ["log of actions run, variable values"])

prop("C19", "Every error code maps to one integer, category, message and condition, and back",
  "For every error code of every category, the error made from it carries that code, category and a non-empty message, converting it to its integer and back gives an equal error, and distinct codes of all categories have distinct integers.  An error survives serialisation and parsing, and integers that are not those of any error code do not turn into a valid but different error.  Conditions and category names are fixed and consistent.",
  ["inputs"], "all codes of all categories (complete) and all integers in and around every category's range",
  "The tests check a few codes; the mapping has to be complete and injective.",
  [I+"error.h", S+"error.cc", S+"error_categories.cc", S+"error_categories.h"], [("category offset arithmetic", S+"error.cc"), ("message switch", S+"error_categories.cc")], ["integers, codes, messages"])

prop("C20", "Menus navigate, run and quit exactly as shown, for every user input",
  "For every tree of menu items (also an empty one) and every sequence of input lines, choosing a shown number enters that child and runs its action exactly once, choosing 99 anywhere below the top returns to the parent (running the parent's action, if any), an item without children returns to the menu it was in, 0 leaves the menu with result 0, and anything else is reported as invalid, runs nothing and leaves the menu where it was.  The end of input or an action that throws leaves the menu with an error as result.  The options shown are numbered 1..n in the order added, with the way back shown exactly where it works; empty and duplicate sibling names are rejected.  Typed input is parsed as the requested type from the start of the line or rejected, tokenising a line yields the space-separated words of the line with two dashes put in front of it, and the prompt and the echo of the terminal are always restored.",
  ["histories", "inputs"], "all menu trees up to a size and all input sequences to a depth, compared with a reference navigator",
  "The test drives one menu with one input sequence, and is not built here.",
  [I+"menu.h", S+"menu.cc", I+"menu_item.h", S+"menu_item.cc", I+"cli.h", S+"cli.cc"], [("Run loop", S+"menu.cc"), ("Child lookup", S+"menu_item.cc")], ["log of actions run, text printed, return value"])

prop("C21", "Symmetric encryption and compression are lossless and detect what they must",
  "Decrypting what was encrypted with the same key and IV returns the plain text for every size, as uncompressing does for every level 0..9; a wrong key or IV never returns the original and any modification or truncation of the cipher text is reported as an error instead of giving different plain text.  Hashes equal the published digests, secure passwords are a deterministic function of password, salt, pin and label that changes with each of them (of the pin, its last four digits count), and uninitialised or out-of-range arguments throw.",
  ["inputs"], "all sizes around block boundaries, all single-byte changes and all truncations of cipher texts, all levels, single changes of each argument",
  "Tests use a few random inputs and one modification.",
  [I+"crypto.h", S+"crypto.cc"], [("SymmEncrypt/SymmDecrypt, Compress/Uncompress", S+"crypto.cc"), ("CreateSecurePassword", I+"crypto.h")], ["results, exceptions"])

prop("C22", "Any threshold-sized subset of shares recovers the data, and no smaller one does",
  "For every threshold k and number of shares n with 2 <= k <= n and n >= 3 (others are rejected with an error), splitting data by secret sharing or by information dispersal gives exactly n parts, and any k of them, in any order, recover exactly the original data; secrets are recovered from any more than k as well.  Fewer than k parts of a secret never yield the original data (they fail or give something else), and sets of parts which are empty, damaged or too short never make recovery misbehave in another way than by an error or other data.",
  ["inputs"], "all 2 <= k <= n <= N, all subsets of the parts and all orders of the smaller subsets, several data sizes",
  "Tests use one or two (k, n) and one subset.",
  [I+"crypto.h", S+"crypto.cc"], [("SecretShareData/SecretRecoverData, InfoDisperse/InfoRetrieve", S+"crypto.cc")], ["recovered data, exceptions"])

prop("C23", "RSA operations round-trip, bind signatures to data and key, and reject the rest",
  "Decrypting with the private key returns what was encrypted with the matching public key for every size, and no other key or modified cipher text yields it.  A signature (of data or of a file) verifies for exactly that data under the matching key, and fails, or is rejected, for any modified data, signature or key; keys survive encoding and decoding, decoding damaged keys throws or gives a key that does not match, and uninitialised keys are rejected by every operation.",
  ["inputs"], "all sizes around the limits, all single-byte changes of cipher text, signature, data; all pairings of two key pairs",
  "Tests use one random message per operation.",
  [I+"rsa.h", S+"rsa.cc"], [("Validate before use, PSS signatures, hybrid encryption", S+"rsa.cc")], ["results, exceptions"])

prop("C24", "File helpers never report success for data that is not there",
  "ReadFile returns exactly the bytes of the file or an error, and never throws, whatever fails underneath; WriteFile returns true only if the file now holds exactly the given content, and false otherwise, and never throws.  The file name of a data object maps back to the same name and type, distinct objects have distinct file names, and malformed file names are rejected with an error.  A path given by a program option is returned only if it is, or was on request newly made, a file or directory as wanted, and is empty otherwise.",
  ["fault_sequences", "inputs"], "every single failing or short system call of a read or write for several sizes; all type identifiers and boundary names; all truncations and single-character changes of file names",
  "Tests cannot make a write fail half way.",
  [I+"utils.h", S+"utils.cc"], [("ReadFile/WriteFile", S+"utils.cc"), ("detail::GetFileName/GetDataNameAndTypeId", S+"utils.cc")], ["returned values, file contents"])

prop("C25", "Database transactions are atomic, across errors, abandonment and crashes",
  "After a committed transaction all its changes are visible to every later connection and survive the process being killed at any moment; a transaction that is destroyed without a successful commit, or interrupted by the process being killed at any write, leaves none of its changes.  After either, and after a failing file operation, a new transaction can begin on the same connection.  A transaction waits for one that is open on another connection, and a commit waits for readers where it has to.  Values bound to statements (text and blobs of any size and content, none included) read back exactly and with their type; errors are reported by exceptions and leave no resources behind.",
  ["histories", "crash_points", "fault_sequences"], "all operation sequences to a depth on one and two connections against a reference map, with a simulated crash at every file write, sync and unlink",
  "Tests commit on the happy path only; roll-back and crash behaviour depend on the exact point of interruption.",
  [I+"sqlite3_wrapper.h", S+"sqlite3_wrapper.cc"], [("BEGIN EXCLUSIVE / COMMIT / ROLLBACK with retry", S+"sqlite3_wrapper.cc")], ["rows read by a fresh connection, exceptions"])

prop("C26", "TCP messages arrive whole, once, in order, and closing is reported once",
  "Messages sent on a connection arrive at the peer unchanged, each exactly once, in the order sent, however the byte stream is segmented and whichever threads run the service.  A message longer than the maximum is refused by the sender, an announced size beyond the maximum closes the connection without delivering anything, and a stream cut at any byte delivers exactly the complete messages before the cut.  The closed handler runs exactly once per started connection, however and from whichever side it is closed, and nothing is delivered after it.  A listener takes the first free port of the loopback (IPv6, or else IPv4) at or above the one asked for and throws if there is none, accepts every connection until it is stopped and none afterwards.",
  ["inputs", "histories", "schedules"], "all segmentations of a byte stream of short messages, all cut points, all size-header boundary values, all short sequences of send/close on both sides",
  "Tests exchange messages over the loopback with whatever segmentation the kernel picks.",
  [I+"tcp/connection.h", S+"tcp/connection.cc", I+"tcp/listener.h", S+"tcp/listener.cc"], [("4-byte size header, async reads, send queue, call_once on close", S+"tcp/connection.cc")], ["messages received, closed handler calls, bytes on the wire"])

prop("C27", "Log messages are filtered by level and written completely, once, in order",
  "A log statement is emitted exactly when its project is enabled and its level is at least the project's configured level, and is formatted with its level letter, time (UTC), source file and line.  Every emitted message is written exactly once to its project's log file and, if not exactly one project is enabled, to the combined one, whole (never interleaved with another), in the order of each thread's statements, and all of them are there after shutdown, with asynchronous as with synchronous logging.  Messages logged before logging has been initialised go nowhere and change nothing.",
  ["schedules", "configurations"], "all pairs of configured level and message level, all spellings of levels, all interleavings within a preemption bound of two logging threads with the background writer",
  "There is no logging test; ordering and completeness depend on the schedule.",
  [I+"log.h", S+"log.cc"], [("ShouldLog filter", S+"log.cc"), ("background active object", S+"log.cc Log"), ("per-file mutex", S+"log.cc WriteToLogfile")], ["log file contents"])

prop("C28", "Version, size-unit, timestamp and XOR helpers are exact for every input",
  "Converting a version string gives 10000*major+1000*minor+patch for every well-formed version (decimal digits only: a major version, one digit of minor version and three digits of patch level, separated by single dots, with a result that fits an int) and the invalid-version value for everything else.  Byte counts are shown to two decimals in the nearest decimal or binary unit for every 64-bit value (whole bytes below the first unit, and rounding up to the next unit from half a unit below it), timestamps convert to the time they were taken at, and XOR of equal-sized strings is bytewise and self-inverse, and throws on unequal sizes.",
  ["inputs"], "all versions with fields 0..99, all strings up to a length over a small alphabet, all values around every unit and rounding boundary, all byte pairs",
  "Tests check a few values each.",
  [I+"utils.h", S+"utils.cc"], [("VersionToInt, BytesToSiUnits, GetTimeStamp, operator^", S+"utils.cc")], ["returned values"])

prop("C29", "Random helpers respect their ranges and are thread safe; the spin lock excludes",
  "Random strings and byte vectors have exactly the requested size, or a size within the requested inclusive range (every size in it being possible), and alphanumeric ones contain only alphanumeric characters; the same seed gives the same sequence, and the small generator the published one.  They may be called from any number of threads: no schedule has a data race or corrupts the generator.  The spin lock admits one holder at a time, publishes the previous holder's writes to the next, and every waiter eventually gets it.",
  ["schedules", "inputs"], "all interleavings within a preemption bound of 2-3 threads; all (min, max) pairs in a small range",
  "Tests check sizes of a few random strings on one thread.",
  [I+"utils.h", S+"utils.cc"], [("generator mutex", S+"utils.cc"), ("compare-exchange spin lock", I+"utils.h")], ["returned strings, race detector"])

prop("C30", "Process command lines hold exactly the given arguments",
  "The command line built from an argument list consists of the executable's name in double quotes (added unless already there) followed by every non-empty argument, unchanged, in order and separated by single spaces, so that for arguments without white space and quotes splitting it gives back the list; an empty list gives an empty command line.  Asking whether a process is running answers true exactly while a process with that id exists (also one of another user's, for which an error may be reported instead), and another executable's path is in this executable's directory with the same extension.",
  ["inputs"], "all argument lists up to a length over a small set of arguments",
  "There is no test of the command line construction.",
  [I+"process.h", S+"process.cc"], [("ConstructCommandLine", S+"process.cc")], ["argv of the started process"])

prop("C31", "Secret input behaves as a character buffer, and obfuscation is its own inverse",
  "For every sequence of insertions, removals, clear and finalise, a secret input string equals the reference character sequence, validates against a pattern exactly when every character and its length do, cannot be read before it is finalised, counts the characters of pieces inserted at once like single ones, and is again editable afterwards.  Secrets and hashes are concatenated in the order given.  Passwords derived from credentials are deterministic and depend on pin and password, masks on all three; obfuscating twice with the same credentials returns the data for every size, and missing credentials throw.",
  ["histories", "inputs"], "all operation sequences to a depth over a small alphabet; all data sizes around the mask size",
  "Tests follow one scripted sequence of edits.",
  [I+"authentication/detail/secure_string.h", S+"authentication/detail/secure_string.cc", I+"authentication/user_credentials.h", S+"authentication/user_credential_utils.cc", I+"authentication/detail/safe_allocators.h"], [("map of encrypted characters", I+"authentication/detail/secure_string.h"), ("XOR with a repeated mask", S+"authentication/user_credential_utils.cc")], ["string(), Hash, Value, IsValid, exceptions"])

prop("C32", "Clock, text and address conversions are exact inverses",
  "The clock counts nanoseconds since 1970-01-01T00:00:00Z: it shows the system time at every instant, and converting to and from calendar seconds is exact for every whole second in range and rounds towards zero otherwise, never overflowing.  Converting between strings and byte containers keeps every byte, and converting IP addresses and endpoints between the two networking libraries keeps family, address, scope and port for every address.",
  ["inputs"], "all whole seconds around every boundary and all sub-second offsets around them under a virtual clock; all byte values; all boundary addresses and ports",
  "Tests compare two clock readings, and conversions of a few random values.",
  [I+"clock.h", S+"clock.cc", I+"convert.h"], [("duration_cast based conversion", S+"clock.cc"), ("convert functions", I+"convert.h")], ["returned values"])

prop("C33", "Items put into shared memory are read back unchanged until removed",
  "For every list of strings (any bytes, any number that fits), reading the shared memory of that name gives back the same strings in the same order; creating again replaces the contents, names do not interfere with one another, and after removal reading fails with an error.",
  ["inputs", "histories"], "all sequences of create/read/remove to a depth over two names and small item lists, all byte values in items and names",
  "Tests write and read a few strings.",
  [I+"ipc.h", S+"ipc.cc"], [("hex-encoded items in a managed segment", S+"ipc.cc")], ["strings read, exceptions"])

prop("C34", "The profiler's report counts every profiled scope exactly once",
  "For every set of profiled scopes entered from any threads, the report printed at exit lists each source location once in every sorted section, with exactly the number of times it was passed and the sum and average of the durations, in the order the section announces (name, count, average, total, descending), and the process exits normally.",
  ["schedules", "histories"], "all interleavings within a preemption bound of two profiled threads and process exit under a virtual clock, and all entry sequences to a depth",
  "There is no profiler test; lost entries and shutdown races depend on the schedule.",
  [I+"profiler.h", S+"profiler.cc"], [("entries added by a background active object", S+"profiler.cc AddEntry"), ("drain before printing", S+"profiler.cc ~Profiler")], ["printed report"])

prop("C35", "The executable path is set once by the first caller; reading before that throws",
  "However many threads set it and with whatever arguments, the executable's path is set exactly once, to the path of the running executable (or the given name made absolute where the system cannot tell), and later calls change nothing.  Reading the path or its directory before it was set throws uninitialised; afterwards it is the same for every reader, and the directory is the path's parent.  An unreadable or over-long system answer never overruns the buffer.",
  ["schedules", "fault_sequences"], "all interleavings within a preemption bound of two setters, and all answers of the underlying system call (error, empty, normal, exactly full)",
  "The test calls it once.",
  [I+"config.h", S+"config.cc"], [("std::call_once", S+"config.cc")], ["returned paths, exceptions"])

prop("C36", "Visualiser messages carry their values intact to the file and the server",
  "Every visualiser message made while the session is not empty is recorded exactly once, with its time, the prefix and the session it was initialised with, its action (and persona) and its values, each unchanged: as a line of comma-separated fields in the file (names of the enumerators, values of 64 bytes abbreviated as hex), in the order of each thread's messages, and as a JSON object of strings that parses back to the same fields (numbers of the enumerators, values of 64 bytes as hex) in a POST request to the server; at most the message under way gets lost when the server hangs up.  The message that another vault has stopped is sent in the same form.  Invalid enumeration values and uninitialised identities are rejected and leave nothing behind.  Only the first of any number of initialisations, from whichever threads, succeeds, the others throw already_initialised; making a message or asking for the names throws unable_to_handle_request before it and sees its names after it.",
  ["inputs", "histories", "schedules"], "all byte values in the string fields, all constructor forms, all short sequences of initialise/use, all interleavings of two threads within a preemption bound",
  "Tests check a few messages with benign characters.",
  [I+"visualiser_log.h", S+"visualiser_log.cc", S+"log.cc"], [("GetPostRequestBody, WriteToFile", S+"visualiser_log.cc")], ["log file lines, request body"])

prop("C37", "Memory of secrets is locked exactly while in use, and wiped before release",
  "Whatever ranges are locked and unlocked in whatever order and from whatever threads, a page is kept from being swapped out exactly while at least one locked range touches it: it is locked once when the first range comes and unlocked once when the last one goes, and the reported number of locked pages is exact.  Strings and vectors using the safe allocator have all pages of their buffer locked for as long as they hold it, and neither they nor those with the zeroing allocator give memory back, nor do they unlock its pages, before every byte of it was overwritten with zero.",
  ["histories", "schedules"], "all sequences of balanced lock/unlock calls over ranges of three pages to a depth, all interleavings of three threads within a bound, all short histories of string and vector operations",
  "There is no test of the allocators.",
  [I+"authentication/detail/safe_allocators.h", S+"authentication/detail/secure_string.cc"], [("lock count per page", I+"authentication/detail/safe_allocators.h"), ("wiping in deallocate", I+"authentication/detail/safe_allocators.h")], ["calls of mlock and munlock, memory given back"])

prop("C38", "The application's directories follow the user's home, or are empty",
  "For every answer of the user data base and every environment, the home directory is the one the data base gives for the user of the process or, if there is no such user or he has none, the value of HOME, or else an empty path.  The user's application directory is the folder of company and application in the .config folder of the home directory, and empty exactly when there is no home directory; the system's and the installation's directories do not depend on either.  Asking never fails, and nothing is remembered from one answer to the next.",
  ["inputs", "fault_sequences", "histories"], "all pairs of about 36 answers of the user data base (also errors) and 25 values of HOME (also none), all bytes, all histories of three situations",
  "There is no such test; users without an entry in the data base do not occur where tests run.",
  [I+"application_support_directories.h"], [("GetHomeDir, GetUserAppDir", I+"application_support_directories.h")], ["returned paths"])

prop("C39", "Enumerations print their names and recognise exactly their values",
  "For every enumeration defined with the library's macro, whatever its underlying type and number of enumerators, the enumerators are numbered from zero in the order given and prefixed with k; every value prints as the name of its enumerator, or, if it has none, as invalid, in narrow and in wide streams, without touching the stream's state; and a value is called valid exactly if it is one of the enumerators.",
  ["inputs"], "all values of 8 and 16 bit enumerations and all near each boundary of wider ones, for 15 enumerations of 1 to 256 enumerators",
  "Tests print two values of two enumerations.",
  [I+"type_macros.h"], [("DEFINE_OSTREAMABLE_ENUM_VALUES", I+"type_macros.h")], ["printed text, IsValid"])

prop("C40", "The bootstrap file tool edits exactly what it is told and loses nothing",
  "For every sequence of lines entered into the bootstrap file tool: an endpoint is accepted exactly if it is a dotted IPv4 address other than 0.0.0.0, a colon and a decimal port from 1025 to 65535, and anything else is asked for again and changes nothing; prepending, appending and removing (the first of equal endpoints) do just that, and viewing shows exactly the list; a saved file loads back to the same list in the same order.  A file that does not parse, or holds no endpoints, or one that is no IPv4 address and port, is reported and leaves the list and its unsaved state as they were, and so does a save that fails.  Unsaved changes are given up, for a loaded file or on leaving, only after they have been confirmed with y or Y.  The tool ends when told to, or at the end of its input, wherever that comes.",
  ["inputs", "histories", "faults"], "all short histories of commands, all strings one edit from an endpoint, all ports and octets, all single-byte damages of a file, all points where the input ends or a save runs out of space",
  "No test runs the tools.",
  [S+"tools/bootstrap_file_tool.cc", S+"tools/bootstrap_file_tool_cereal.h"], [("Choice::Execute, HandlePolicyLoadBootstrapFile, InputPolicyGetEndpoint", S+"tools/bootstrap_file_tool.cc")], ["what the tool prints, files it saves, end of the process"])

prop("C41", "The signing tool undoes what it did, and harms no file when it cannot",
  "For every sequence of lines entered into the signing tool: a key saved is the key it holds, created or loaded, and loads back; a signature is valid exactly for the file as it was signed and the public key that belongs to the signing key; an encrypted file shows nothing of its contents and decrypts to them with its password, and with no other.  Passwords are taken whole, entered twice, and never shown while they are entered.  Any of the required number of members of a key group (of three or more), and nobody else and no fewer, can sign with the group's key, which is the key the tool held when the group was formed and is never saved in the clear by those who have signed in.  Whatever cannot be done (a wrong password, a damaged or missing file, no key, a key that is not valid) is reported and leaves files and keys as they were.  The tool ends when told to, or at the end of its input, wherever that comes, and then what was not asked for to the end is not done.",
  ["inputs", "histories"], "all short histories of commands over two key pairs and two passwords, all damages of small files, signatures and keys, all ways of signing in to small groups, all points where the input ends",
  "No test runs the tools.",
  [S+"tools/signing_tool.cc"], [("Get, SignFile, EncryptFile, CreateKeyGroup, GroupSignIn", S+"tools/signing_tool.cc")], ["what the tool prints, files it writes, terminal settings, end of the process"])

prop("C42", "The attack simulation keeps to its admission rule and counts exactly",
  "Each network of the address space simulation starts with the configured number of good nodes, the first of which is always taken; any other candidate address is taken exactly if the leading bits it shares with its group (the nodes closest to it, of the configured number or all there are), by the configured measure, are fewer than those shared within that group plus the leeway, and always under no measure; the next candidate is tried otherwise.  Bad nodes are then added one at a time, each after the configured number of good ones, until among the groups of 1024 evenly spread addresses as many as configured have a bad majority and no node in common.  What is reported (bad and good nodes added, attempts per node, population, attack, and how many of the random addresses, with those linked to each by hashing, lie in bad groups only) is exact.  Each further iteration has the initial count multiplied by the factor.  The configuration is that of the file named or else of the tool's own file; values left out have their defaults; a file that does not parse is reported with a failure code; a file that is not there is written with the defaults, and reads back as those.",
  ["inputs", "histories"], "all sequences of addresses of a family, all measures, leeways, group sizes and majorities of small networks, all subsets of configured values, all cuts of a file",
  "No test runs the tools.",
  [S+"tools/address_space_tool.cc", S+"tools/address_space_tool.h"], [("Test::AddNode, InjectBadGroups, CheckLinkedAddresses, GetConfig, main", S+"tools/address_space_tool.cc")], ["what the tool prints, its exit code, the file it writes"])

prop("C43", "Logging takes its own options, follows them, and hands the others back",
  "The first initialisation of logging takes its own options out of the command line, wherever they are and whether a value follows as an argument of its own or after an equals sign, and returns the path of this executable and then every other argument, once, unchanged and in order, each ended by a zero; any later initialisation returns nothing and changes nothing.  The levels of the projects, the colour mode, the console and the background thread are as the command line says, or where it does not, the configuration file, or else as documented by the options' defaults (no level, colour mode 1, console and background thread in use).  If help is asked for, which is passed on as the last argument, or if an option cannot be understood (a colour mode out of range, a value of the wrong kind, a line or option of the file that is none), that is answered on the standard output, nothing is logged, neither to files nor to the console, and the process goes on.",
  ["inputs", "histories"], "all command lines of a few arguments over an alphabet of logging's own and other ones, every setting given in either place, both or neither",
  "Tests initialise logging once, in main, with the test's own command line.",
  [I+"log.h", S+"log.cc"], [("Logging::Initialise, ParseProgramOptions, HandleFilterOptions", S+"log.cc")], ["returned arguments, Filter, Colour, Async and LogToConsole, standard output, log files"])

prop("C44", "The console shows each logged message whole, once, in order and colour",
  "Unless it is switched off, every message that passes the filter is shown on the standard output exactly once, whole (with every byte of it, and never interleaved with another), as it is in the log files and in the order of each thread's statements, with asynchronous as with synchronous logging.  On a terminal that knows colours the heading (colour mode 1) or the whole message (colour mode 2) is shown in the colour of its level (verbose cyan, success green, warning yellow, error red, others as they are); in colour mode 0, on other terminals and in files no colour codes are written.  When it is switched off nothing is shown, and a console that cannot be written to does no harm to the log files or the process.",
  ["inputs", "schedules"], "all interleavings within a preemption bound of two or three logging threads and the background thread; all levels, modes and terminals, all bytes and boundary sizes, on a file, a terminal and failing consoles",
  "No test looks at the console.",
  [I+"log.h", S+"log.cc"], [("SendToConsole, ColouredPrint", S+"log.cc")], ["the standard output of the process"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
