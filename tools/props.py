#!/usr/bin/env python3
"""The property list and the manifest: writes properties.jsonl, MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None,
         note=None, level="model_checking", observe=(), na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level,
                  observe=list(observe), na=na))


TRACE = ("TLA+ specification model-checked with TLC; scripts generated from its "
         "state graph and at random are run on the real code (ASan) and every "
         "recorded event is validated against the specification by TLC")
UNIT = ("the unit tests and CBMC harnesses drive a handful of fixed short "
        "sequences (and no CBMC harness covers this component)")

prop("C01", "Red-black tree behaves as an exact ordered map",
     "After any sequence of insert, find, delete, node delete, clear, swap and "
     "release on one or more trees, each tree holds exactly the resources "
     "inserted and not yet removed: find returns the resource stored under a "
     "key or reports it missing, delete removes exactly that entry, the count "
     "is exact, and walking, in the order "
     "its comparison, called with the user's context, defines, from minimum by successor (or from maximum by "
     "predecessor) visits every entry once in key order.",
     ["histories", "inputs"],
     "every history of operations over up to three trees with distinct keys",
     "tests insert and delete a few fixed keys; deletion re-balancing and "
     "swap-then-modify histories are never reached",
     ["src/rbtree/rbtree_insert_node.c", "src/rbtree/rbtree_remove_node.c",
      "src/rbtree/rbtree_delete_fixup.c", "src/rbtree/rbtree_swap.c",
      "src/rbtree/rbtree_find_node.c", "include/rcpr/rbtree.h"],
     ["CLRS insertion/removal with transplant", "successor/predecessor walks"],
     TRACE + "; RbAlg.tla enumerates every reachable tree shape",
     "exhaustive over every reachable shape with up to 8 (thorough 9) keys and "
     "every operation from it, plus random histories to 400 keys; trusts the "
     "driver's projection (public API only)")
prop("C02", "Red-black tree stays balanced",
     "After every operation the tree is a valid red-black tree (root black, no "
     "red node with a red child, equal black heights, parent links consistent), "
     "so its height never exceeds 2*log2(n+1) and a lookup compares only that "
     "many keys.",
     ["histories"], "every history of insertions and removals",
     "a mis-coloured or unrotated tree still finds every key, so tests that "
     "look keys up cannot see it",
     ["src/rbtree/rbtree_insert_fixup.c", "src/rbtree/rbtree_delete_fixup.c",
      "src/rbtree/rbtree_left_rotate.c", "src/rbtree/rbtree_right_rotate.c",
      "src/rbtree/rbtree_transplant.c"],
     ["insert and delete fixup", "rotations"],
     TRACE + "; RbAlg.tla proves the balancing algorithm for bounded key sets",
     "exhaustive over every shape/transition with up to 8 (9) keys, plus random "
     "histories; the structural dump reads the private node header")
prop("C03", "Singly linked list keeps exact sequence semantics",
     "Every history of insert-head, append, append-after-node, pop, "
     "pop-after-node, child swap, clear, swap of two lists and release leaves "
     "each list with exactly the sequence of resources those operations define: "
     "head, tail, count and forward traversal always agree with it, and a node "
     "or resource always belongs to the list it was moved to.",
     ["histories"], "every history over up to three lists",
     UNIT, ["src/slist", "include/rcpr/slist.h"],
     ["head/tail/next maintenance", "node parent pointer"], TRACE,
     "exhaustive over all transitions of the bounded model (two lists, three "
     "(thorough four) resources), plus random histories")
prop("C04", "Doubly linked list keeps exact sequence semantics",
     "Every history of insert-head, append-tail, insert-before-node, "
     "append-after-node, pop, child swap, clear, swap of two lists and release "
     "leaves each list with exactly the sequence of resources those operations "
     "define; forward and backward traversal are mirror images and agree with "
     "head, tail and count.",
     ["histories"], "every history over up to three lists",
     "the CBMC harness covers creation and release only; unit tests use fixed "
     "short sequences",
     ["src/list", "include/rcpr/list.h"],
     ["head/tail/next/prev maintenance", "node parent pointer"], TRACE,
     "exhaustive over all transitions of the bounded model (two lists, three "
     "(thorough four) resources), plus random histories")
prop("C05", "Queue delivers in FIFO order, each item once",
     "Resources appended to a queue are popped in the order they were appended, "
     "each exactly once; a resource inserted at the front is popped next; the "
     "count is always the number of resources still queued and popping an empty "
     "queue yields nothing.",
     ["histories"], "every interleaving of append, insert, pop and release",
     UNIT, ["src/queue", "src/slist", "include/rcpr/queue.h"],
     ["queue over singly linked list"], TRACE,
     "exhaustive over all transitions of the bounded model, plus random "
     "histories")

prop("C06", "Ownership is exact: every resource is released once, by its owner",
     "Resources form a forest of owners: lists, queues, trees and messages own "
     "what is put into them, and may be nested in each other to any depth. "
     "Putting, popping, exchanging, swapping or taking a resource moves exactly "
     "that ownership; a failed operation leaves the resource with the caller; "
     "releasing or clearing a container releases every resource below it "
     "exactly once and nothing else; a child that fails to be released or a "
     "block that cannot be handed back is reported and spares nothing: "
     "releasing still releases everything below, a tree is still cleared, a "
     "sequence is cleared up to the failure and remains a valid sequence of "
     "the rest, and an entry whose node cannot be reclaimed is released and "
     "not handed out; and releasing "
     "hands every block of memory back to the allocator it came from, so "
     "that nothing is leaked, released twice or used after release.",
     ["histories", "inputs"],
     "every history of operations over nested containers of every kind, made "
     "from any mix of allocators",
     "tests put plain resources into one container at a time, with one "
     "allocator, and count releases of a few of them",
     ["src/resource", "src/slist", "src/list", "src/queue", "src/rbtree",
      "src/message/message_create.c", "src/message/message_payload.c",
      "include/rcpr/resource.h"],
     ["resource vtables and release chains", "node ownership hand-over",
      "per-node allocators"],
     TRACE + "; user-defined allocators and interposed release methods record "
     "every block and every release",
     "exhaustive over every transition of the bounded model (three objects of "
     "five kinds; the design check covers four), plus histories of 60 operations "
     "over ten objects simulated from the specification; entries that refuse "
     "to be released and blocks that cannot be handed back are part of both")

prop("C07", "Running out of memory changes nothing that was promised",
     "Whichever allocation of whichever operation fails, alone or with every "
     "later one, the operation reports the failure to its caller, nothing is "
     "leaked, lost, released or used twice, what the caller passed in stays "
     "the caller's, whatever was not created can be created later, and every "
     "list, tree, queue, mailbox, conditional, scheduler, psock and fiber goes "
     "on exactly as if the call had not been made. Only calls that reach "
     "several fibers in turn (notify, quiesce all, terminate all) may have "
     "reached the first few of them, each completely.",
     ["fault_sequences", "histories"],
     "every allocation of every operation, failing in any history",
     "tests never make an allocation fail except in a few CBMC harnesses of "
     "single container functions; the recovery paths of the scheduler, the "
     "disciplines and the psocks run nowhere",
     ["src/fiber/common", "src/message", "src/condition", "src/psock",
      "src/rbtree", "src/slist", "src/list", "src/queue", "src/resource",
      "src/string", "src/bigint", "src/stack", "src/allocator"],
     ["cleanup chains of the create functions",
      "run queue insertion after a state change"],
     "TLA+ specifications with a failure rule for every operation; histories "
     "generated from their state graphs are re-run with each allocation of "
     "each operation failing (linker-wrapped malloc, mmap; ASan), and TLC "
     "validates every recorded event before and after the failure, as a set of "
     "possible states where the specification leaves a choice",
     "every allocation each operation makes is failed in turn until it makes "
     "no more, at sampled places of the generated histories (40 per operation "
     "in quick); allocations of asynchronous reads and of the fibers a test "
     "creates itself are not failed",
     level="fault_enumeration")

FIB = ("unit tests run one or two fibers through one fixed interleaving; CBMC "
       "harnesses cover resource creation and release only")
FNOTE = ("exhaustive over every transition of the bounded models (two or three "
         "fibers; deeper in thorough), plus histories of 60 operations simulated "
         "from the specification with five fibers; calls whose misuse the "
         "documentation leaves undefined are excluded by the specification's "
         "Guard")

prop("C09", "Fibers run exactly in the scheduler's queue order",
     "For every history of run, yield, add, remove, exit and idle operations on "
     "a disciplined scheduler, the fiber that receives control next, and the "
     "event and parameter it is resumed with, are exactly what the run queue "
     "dictates: every runnable fiber is resumed once per time it was queued, in "
     "FIFO order (next-to-run entries first); an added fiber is started; a "
     "finished or removed fiber never runs again; the idle fiber runs only when "
     "nothing else can; and the reported current fiber and fiber states are "
     "always those of the fiber really running.",
     ["schedules", "histories"],
     "every interleaving of any number of fibers that yield, add, remove, idle "
     "and exit", FIB,
     ["src/fiber/common/fiber_scheduler_create_with_disciplines.c",
      "src/fiber/common/fiber_scheduler_run.c",
      "src/fiber/common/fiber_scheduler_add.c",
      "src/fiber/common/fiber_scheduler_yield.c",
      "src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c",
      "src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c",
      "include/rcpr/fiber.h"],
     ["run queue", "disciplined scheduler callback", "idle fiber"],
     TRACE, FNOTE)
prop("C10", "Management events reach the management fiber and their targets",
     "A fiber that asks for management events is resumed with the add or stop "
     "event of the very fiber that was added or stopped; a quiesce or terminate "
     "request resumes its target (or, for requests to all, every other running "
     "fiber except the management fiber) exactly once with that management "
     "event, the requester is resumed with the result, and requesting it of a "
     "fiber that is not running reports an invalid state and resumes nobody "
     "else.",
     ["schedules", "histories"],
     "every interleaving of management requests with other fiber operations",
     FIB,
     ["src/fiber/common/fiber_scheduler_create_with_disciplines.c",
      "src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c",
      "src/fiber/common/disciplined_fiber_scheduler_send_quiesce_request_to_all.c",
      "src/fiber/common/disciplined_fiber_scheduler_send_terminate_request_to_fiber.c"],
     ["management discipline callbacks"], TRACE,
     FNOTE + "; requests to a fiber already queued to run are a known "
     "limitation (DESIGN.md) and excluded")
prop("C11", "Fiber disciplines are isolated and exact",
     "Each registered discipline is found under its id and no other; a "
     "discipline yield invokes exactly the callback of that discipline numbered "
     "in the request, with its own context, the yielding fiber and the caller's "
     "parameter; an event outside the discipline's range or a duplicate id is "
     "rejected without effect; ownership passes to the scheduler exactly when "
     "adding succeeds; and fibers are resumed with the discipline id, event and "
     "parameter the callback chose.",
     ["histories", "inputs"],
     "every set of disciplines, callback counts and yield requests", FIB,
     ["src/fiber/common/fiber_scheduler_discipline_add.c",
      "src/fiber/common/fiber_scheduler_discipline_find.c",
      "src/fiber/common/fiber_scheduler_discipline_create.c",
      "src/fiber/common/fiber_discipline_yield.c"],
     ["discipline tree", "callback vector and callback codes"], TRACE, FNOTE)
prop("C12", "Mailbox messages are delivered exactly once, in order",
     "Every message successfully sent to an open mailbox is received exactly "
     "once, by a fiber receiving from that mailbox, in the order of sending, "
     "with its payload and return address intact; a fiber receiving from an "
     "empty mailbox stays suspended until a message is sent to it and is then "
     "resumed with it; sending to or receiving from an address that is not open "
     "is reported and, for a failed send, the message stays with the sender; a "
     "second simultaneous receiver is rejected; closing releases the undelivered "
     "messages; addresses are never reused.",
     ["schedules", "histories"],
     "every interleaving of senders and receivers over any number of mailboxes",
     FIB, ["src/message", "include/rcpr/message.h"],
     ["message discipline callbacks", "blocked receiver", "mailbox address tree"],
     TRACE, FNOTE)
prop("C13", "Conditionals wake exactly the fibers waiting on them",
     "notify-one resumes exactly the longest-waiting fiber of that conditional, "
     "notify-all resumes every fiber waiting at that moment exactly once in "
     "waiting order, neither wakes a fiber waiting on another conditional, and "
     "without waiters nothing is remembered; a waiting fiber stays suspended "
     "until notified; waiting on, notifying or closing a conditional that is not "
     "open is reported.",
     ["schedules", "histories"],
     "every interleaving of waiters and notifiers over any number of "
     "conditionals", FIB,
     ["src/condition", "include/rcpr/condition.h"],
     ["condition discipline callbacks", "wait queue"], TRACE, FNOTE)
prop("C25", "Unexpected events go to the fiber's own handler",
     "When an operation reports an unexpected resume event for a fiber, the "
     "handler registered last for that fiber is called exactly once with its "
     "context, the fiber, the received discipline id, event and parameter, and "
     "the expected discipline id and event, and its status is what the caller "
     "gets; without a handler the documented error is returned.",
     ["histories", "inputs"], "every registration and event history", FIB,
     ["src/fiber/common/fiber_unexpected_event.c",
      "src/fiber/common/fiber_unexpected_event_callback_add.c"],
     ["per-fiber handler and context"], TRACE, FNOTE)

SOCK = ("unit tests exchange one value over a socketpair that always delivers "
        "whole messages; no CBMC harness covers psocks")
prop("C14", "Socket values arrive exactly as sent, however the stream is cut",
     "Every value written through a psock (raw or boxed, every integer type, "
     "bool, string, data) goes out as exactly its encoding, and the matching "
     "read returns exactly that value and consumes exactly its bytes, whatever "
     "the type of psock and however the transport cuts the bytes into segments "
     "or the write into pieces; a value of another type, an impossible size, a "
     "stream that ends inside a value, a short write, or a read or write that "
     "the transport fails is reported as that error, with only a prefix of the "
     "value sent and the caller's outputs untouched.",
     ["inputs", "histories"],
     "every sequence of values, every segmentation of the byte stream, every "
     "point at which it ends", SOCK,
     ["src/psock/psock_read_boxed_string.c", "src/psock/psock_read_block.c",
      "src/psock/psock_read_raw_data.c", "src/psock/psock_write_boxed_data.c",
      "src/psock/psock_from_descriptor_read.c",
      "include/rcpr/psock.h"],
     ["boxed packet type tags and sizes", "network byte order",
      "read/write until complete"], TRACE,
     "exhaustive over every segmentation of a 12 byte stream and every end "
     "point of each type; boundary and random values otherwise; write sizes "
     "above 4 GiB checked with a stand-in transport")
prop("C16", "A buffered reader never loses, repeats or reorders bytes",
     "Reads of lines, of values and of raw bytes through a buffered reader, in "
     "any mixture, over any psock (another buffered reader included) and any "
     "segmentation, together deliver exactly the bytes of the stream in order; "
     "read_line returns the bytes up to the next newline (or to the end of the "
     "stream) NUL-terminated with the exact size, reports truncation when the "
     "line does not fit and then continues where it stopped; it never waits for "
     "bytes it does not need, a transport that would block makes it wait (a raw "
     "read reports it and loses nothing), a failing one ends the line there, "
     "and the end of the stream is reported.",
     ["inputs", "histories"],
     "every stream, every segmentation, every sequence of reads", SOCK,
     ["src/psock/psock_br_read_line.c", "src/psock/psock_br_fill.c",
      "src/psock/psock_br_psock_read.c",
      "src/psock/psock_br_create_from_psock.c", "include/rcpr/psock.h"],
     ["16 KiB reader buffer", "line assembly"], TRACE,
     "exhaustive over all transitions of the bounded model (streams of up to 6 "
     "bytes, refills of 1, 2 or any number of bytes, four line sizes), plus "
     "random streams to 60 bytes and lines around the 16384 byte buffer")
prop("C17", "Buffer and user-method psocks carry exactly the bytes given",
     "The output buffer of a buffer psock is exactly the concatenation of the "
     "bytes written to it, over any number of 4096 byte blocks and whatever "
     "allocations fail (a failed write is reported and adds only a prefix of "
     "its bytes); a buffer psock over input yields exactly the input's bytes "
     "and then reports its end; a user-method psock calls exactly the user's "
     "methods with the user's context, an undefined optional method is "
     "reported, and the release method runs exactly once; what a type of psock "
     "does not offer is refused and nothing happens.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of writes and reads, every allocation failure", SOCK,
     ["src/psock/psock_create_from_buffer.c",
      "src/psock/psock_from_buffer_get_output_buffer.c",
      "src/psock/psock_from_buffer_write.c",
      "src/psock/psock_create_from_user_methods.c", "include/rcpr/psock.h"],
     ["output queue of blocks", "user vtable"], TRACE,
     "write sizes around every block edge with a failure injected at each "
     "allocation; random histories to 14 writes")


prop("C15", "Asynchronous psocks suspend only the calling fiber and wake it",
     "On an asynchronous psock a read, write, line read, accept or explicit "
     "wait that would block suspends only the calling fiber; other fibers run; "
     "a fiber is suspended only if it cannot proceed, and every suspended fiber "
     "whose socket becomes readable or writable (or whose peer hangs up) is "
     "resumed, whatever other fibers wait on that or other sockets; the "
     "scheduler waits for I/O only when no fiber can run, and goes on waiting "
     "when interrupted; a poll that cannot be made or told of a socket is an "
     "error of that call alone; a socket let go leaves the others waiting; "
     "values, lines and "
     "bytes arrive and leave intact, in order, however the transport cuts them "
     "and however often it would block; a second fiber blocking on the same "
     "direction is refused without disturbing the first; an out-of-band "
     "management event reaches the owner's unexpected-event handler, whose "
     "verdict decides whether the call waits on or fails.",
     ["schedules", "histories", "inputs"],
     "every interleaving of fibers, peers, would-block answers and readiness",
     SOCK,
     ["src/psock/psock_create_wrap_async.c", "src/psock/psock_read_block.c",
      "src/psock/psock_write_block.c", "src/psock/psock_wrap_async_read.c",
      "src/psock/psock_wrap_async_write.c",
      "src/psock/platform/epoll/psock_idle_fiber_entry.c",
      "src/fiber/common/fiber_unexpected_event.c", "include/rcpr/psock.h"],
     ["psock I/O discipline", "idle fiber and epoll one-shot events"], TRACE,
     "TLC checks the two-fiber two-socket design exhaustively (5 operations, "
     "safety and wake-up liveness); real traces: every cut of every value, "
     "every short-write pattern to length 3, wake/refuse/interrupt families, "
     "simulated and random programs with up to 6 fibers and 4 sockets")
prop("C24", "Descriptors and connections are handed over exactly once",
     "A descriptor written to a datagram psock arrives at the peer as an open "
     "duplicate of the same file, the sender's stays open; reading one yields a "
     "descriptor for the file that was sent, in order, and a message without a "
     "descriptor is an error; accepting yields each pending connection once, "
     "in order, as a descriptor the caller owns; a psock of another kind "
     "refuses; no descriptor leaks or is closed early by any history of these, "
     "and releasing a psock closes exactly its own descriptor.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of passes, connections, would-blocks and releases", SOCK,
     ["src/psock/psock_read_raw_descriptor.c",
      "src/psock/psock_write_raw_descriptor.c", "src/psock/psock_accept.c",
      "src/psock/psock_wrap_async_accept.c",
      "src/psock/psock_wrap_async_recvmsg.c",
      "src/psock/psock_wrap_async_sendmsg.c",
      "src/psock/psock_from_descriptor_release.c"],
     ["SCM_RIGHTS control messages", "accept queue"], TRACE,
     "random histories of up to 25 operations over 3 sockets, sync and async; "
     "allocation failure at every allocation of opening")

PURE = ("TLA+ specification of the functions, their laws model-checked with TLC "
        "over every short string; recorded calls of the real code (ASan, "
        "exact-size buffers) are validated by TLC")

prop("C08", "Allocators hand out disjoint, aligned memory inside their region",
     "Every block a bump allocator hands out is 16-byte aligned, lies wholly "
     "inside the caller's region after the allocator's own header, and overlaps "
     "no block handed out since the last reset; a request that cannot fit, "
     "however large, fails with out-of-memory and a NULL pointer and changes "
     "nothing; a request that fits succeeds; reset makes the whole region "
     "available again; reclaim is harmless, reallocate and unknown control keys "
     "are refused; the region is never freed. The malloc allocator's blocks keep "
     "their contents, reallocation preserves the common prefix, and a failed "
     "(re)allocation leaves the old block intact and owned by the caller.",
     ["inputs", "histories", "fault_sequences"],
     "every region size and alignment, every sequence of requests of any size",
     "tests allocate a few small blocks from aligned regions; the CBMC harness "
     "covers malloc allocator creation and one reallocation only",
     ["src/allocator/bump_allocator_create.c",
      "src/allocator/malloc_allocator_create.c", "include/rcpr/allocator.h"],
     ["16-byte alignment of the absolute address", "overflow check",
      "allocator control reset"],
     TRACE,
     "exhaustive over the bounded bump design (12 region sizes, 2 alignments, 10 "
     "request sizes); random histories; a block ending exactly at the region's "
     "end may be refused")
prop("C18", "An auto-reset trigger fires its listener exactly once per signal",
     "A trigger remembers a signal until a listener has heard it and a listener "
     "until it was called: stepping calls the registered listener, with its "
     "context, exactly once if and only if the trigger was signalled since the "
     "last call and a listener is registered, whatever the order of registering "
     "and signalling; afterwards both are cleared; at any other time nothing is "
     "called; a second listener is refused and the first stays; triggers do not "
     "affect each other; release reports a block that cannot be handed back.",
     ["histories"], "every sequence of register, signal, step and release",
     "the unit tests use a handful of fixed sequences",
     ["src/auto_reset_trigger", "include/rcpr/auto_reset_trigger.h"],
     ["triggered flag", "single listener slot"], TRACE,
     "exhaustive: every sequence of 7 (thorough 9) operations on one trigger, "
     "every transition of the two-trigger model, random histories on four; "
     "a callback that re-enters its own trigger is out of contract")
prop("C19", "String operations compute exactly the specified result, in place",
     "For every NUL-terminated string, left/right/whole trim remove exactly the "
     "leading/trailing whitespace, chomp exactly the last character; words and "
     "multisplit yield exactly the maximal runs of non-separator characters in "
     "order and then report the end, repeatedly; split divides at the first "
     "delimiter or reports it missing; starts-with and ends-with decide exactly "
     "that; duplicate and concatenate return fresh, exact copies or report the "
     "failed allocation; nothing outside the string is read or written.",
     ["inputs", "fault_sequences"], "every string",
     "the tests and CBMC harnesses use fixed strings or bounded symbolic ones "
     "that check memory safety, not results",
     ["src/string", "include/rcpr/string.h"],
     ["in-place scanning", "string iterator"], PURE,
     "every string to length 4 (thorough 5) over {tab, space, a, b} for every "
     "operation, every byte value in six positions, random strings to 60; "
     "delimiters are 7-bit characters")
prop("C20", "UUIDs and their text form convert exactly, both ways",
     "Formatting a UUID yields its 36-character lower-case hyphenated form; "
     "parsing accepts exactly the 36-character hyphenated strings of "
     "hexadecimal digits in either case, yields exactly the bytes they name, and "
     "so inverts formatting; anything else, of any length, NULL included, is "
     "refused without reading past it and leaves the caller's UUID unchanged; "
     "the raw form obeys the length given instead of a terminator.",
     ["inputs", "fault_sequences"], "every UUID and every string",
     "tests parse a few good strings and a few bad ones",
     ["src/uuid/rcpr_uuid_parse_string.c",
      "src/uuid/rcpr_uuid_parse_raw_string.c", "src/uuid/rcpr_uuid_to_string.c",
      "include/rcpr/uuid.h"],
     ["nibble and dash readers"], PURE,
     "every byte value in several (thorough all 16) positions, 19 (thorough 255) "
     "characters at every position, every length to 44, every single insertion "
     "and deletion")
prop("C29", "Big integers and stacks own their memory and keep their values",
     "A big integer created for n bits is zero and has room for at least n bits; "
     "a clone equals its original and is independent of it: changing or "
     "releasing either leaves the other intact; a stack gives at least the bytes "
     "asked for, all writable; a failed allocation is reported, yields nothing "
     "and leaks nothing; release returns everything exactly once.",
     ["histories", "fault_sequences", "inputs"],
     "every size and every history of create, clone, write and release",
     "tests create, clone and release one instance",
     ["src/bigint", "src/stack", "include/rcpr/bigint.h", "include/rcpr/stack.h"],
     ["deep copy of the digit array", "mmap of the stack region"], TRACE,
     "sizes 1..199 bits and around 2^8..2^13; random histories over four of each; "
     "digits are read through the private header (no public accessor exists)")
prop("C21", "Threads, mutexes and conditions exclude, wake and join exactly",
     "A created thread runs its function once with its context on a stack of at "
     "least the requested size; releasing it waits for the function to return "
     "and yields the status it returned; at most one thread holds a mutex at any "
     "time and a released mutex goes to a thread that wants it; waiting on a "
     "condition gives the mutex up and returns holding it again; a signal sent "
     "while threads wait wakes exactly one of them, a broadcast all of them, and "
     "none is lost. A creation that fails is reported and leaves nothing behind; a "
     "platform call or an allocator that fails is reported by the operation "
     "that made the call, which changes nothing else and still gives back "
     "everything when it was a release.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of lock, unlock, wait, signal, exit and join by any "
     "number of threads",
     "the tests start one thread at a time with fixed sleeps; interleavings are "
     "left to chance",
     ["src/platform/pthread/thread", "include/rcpr/thread.h"],
     ["pthread mutex/cond wrappers", "thread_start and join on release"], TRACE,
     "every transition of the three-thread model (four threads, two mutexes in "
     "thorough model checking), random histories with up to eight threads, two "
     "mutexes and three conditions; threads are stepped one call at a time, so "
     "races inside one pthread call are the platform's")
prop("C22", "Descriptor and byte-order helpers touch exactly what they name",
     "Moving descriptors leaves every variable naming the file it named, at or "
     "above the threshold, in a place that was its own or free; setting "
     "descriptors makes each target name its source's file and closes the "
     "source; closing the others closes every descriptor above the given one "
     "and the standard-descriptor helper exactly 0, 1 and 2; no other "
     "descriptor or file flag changes and a failure loses no descriptor; "
     "set_nonblock adds that one flag; socketpair yields two fresh connected "
     "ends or an error; hton/ntoh give the big-endian image of every value and "
     "are inverse.",
     ["histories", "inputs", "fault_sequences"],
     "every descriptor table, argument list and value",
     "no test inspects the descriptor table; the tests move one descriptor",
     ["src/socket_utilities", "include/rcpr/socket_utilities.h"],
     ["dup and close of listed descriptors", "byte swapping"], TRACE,
     "the model covers every table over six (thorough seven) descriptors and "
     "every hand-over of two (three) of them; each runs in a child process whose "
     "whole table is compared; random histories with shared files and limits")
prop("C23", "A fiber resumes with its machine context intact",
     "Whatever other fibers did meanwhile, a fiber that is resumed finds its "
     "callee-saved registers, its SSE and x87 control words, its stack and its "
     "program position exactly as when it gave up control, and is told the "
     "discipline, event and parameter the scheduler chose for it; a new fiber "
     "enters its function with its context, an aligned stack and the creator's "
     "control words.",
     ["schedules", "histories"],
     "every order of switches between any number of fibers with any register "
     "contents",
     "compiled C hides most register corruption: the unit tests pass with "
     "several registers or the control words lost",
     ["src/fiber/platform/sysv/x86_64/fiber_switch.s",
      "src/fiber/platform/sysv/x86_64/fiber_make.s",
      "src/fiber/platform/sysv/x86_64/fiber_struct.inc",
      "src/fiber/common/fiber_create.c", "src/fiber/common/fiber_entry.c",
      "src/fiber/common/fiber_scheduler_yield.c"],
     ["register save area", "stack set-up and trampoline"], TRACE,
     "every transition of the three-fiber model (four in thorough model "
     "checking), random histories with seven fibers, random values in all six "
     "registers and both control words at every switch; x86-64 System V only")
prop("C26", "A caller-written scheduler is told everything and obeyed",
     "A scheduler callback is called exactly once for the main fiber at "
     "creation, once for every fiber added, run, yield and fiber that returns, "
     "and once at release, each time with the right fiber, event and parameter "
     "(a returning fiber's status included), and the fiber it chooses is the "
     "one that continues, receiving exactly the discipline, event and parameter "
     "it gave; a refusal is returned to the caller, which keeps running; a "
     "scheduler whose creation fails is reported, undone and leaks nothing.",
     ["schedules", "histories", "fault_sequences"],
     "every schedule a callback may choose",
     "the tests' callbacks make one fixed choice",
     ["src/fiber/common/fiber_scheduler_create.c",
      "src/fiber/common/fiber_scheduler_yield.c",
      "src/fiber/common/fiber_scheduler_add.c",
      "src/fiber/common/fiber_scheduler_run.c",
      "src/fiber/common/fiber_entry.c",
      "src/fiber/common/fiber_create_for_thread.c",
      "src/fiber/common/fiber_scheduler_resource_release.c",
      "include/rcpr/fiber.h"],
     ["callback dispatch", "current fiber", "exit status"], TRACE,
     "every transition of the three-fiber model, random histories with seven "
     "fibers, boundary event values, failed and faulty creations")

prop("C30", "Psocks are made whole or not at all, and connect who they name",
     "Making a listener, a connection by host name and port, a buffered reader "
     "or a psock from a descriptor, a buffer or user methods either yields a "
     "whole psock or names the step that failed and leaves no descriptor open "
     "and no memory held. A connection reaches the host and port asked for, "
     "over IPv4 or else IPv6; a listener hands out the connections made to it "
     "in order, each once, with the peer's address; what one end writes the "
     "other reads, and no one else. A psock reports the socket type of its "
     "descriptor, a buffered reader that of what it wraps, and both accept, "
     "pass descriptors and refuse alike. An option is set on that socket only, "
     "or refused with nothing changed. Releasing closes its own descriptor, "
     "calls a user's release method once, gives all memory back and reports a "
     "method or an allocator that failed.",
     ["histories", "fault_sequences", "inputs"],
     "every history of making, connecting, accepting, wrapping, using and "
     "releasing, with any system call or allocation failing",
     "the tests open one connection on a fixed port; no system call fails, no "
     "second address family, no kind but the plain one is tried",
     ["src/psock/psock_create_from_listen_address.c",
      "src/psock/psock_create_from_hostname_and_port.c",
      "src/psock/psock_create_from_descriptor.c",
      "src/psock/psock_create_from_user_methods.c",
      "src/psock/psock_br_create_from_psock.c",
      "src/psock/psock_br_psock_accept.c", "src/psock/psock_br_release.c",
      "src/psock/psock_from_buffer_release.c", "src/psock/psock_setsockopt.c",
      "include/rcpr/psock.h"],
     ["cleanup on each failing step", "IPv4 then IPv6 lookup",
      "pass-through adapter"], TRACE,
     "every transition of the three-slot model (listeners, backlog, wrapping), "
     "every failing step of every way of making one, random histories over "
     "twelve psocks; loopback sockets, IPv6 reached over IPv4 by the driver")
prop("C27", "Failures are told apart, and nothing is lost on the way out",
     "Every declared failure status is negative (so never success), differs "
     "from every other, and belongs to the component it is named after. "
     "STATUS_CODE and COMPONENT_MAKE give, for every error flag, component "
     "and reason in range, a status or component of its own, from which the "
     "parts can be read back. A routine written with TRY_OR_FAIL and "
     "CLEANUP_OR_CASCADE does its steps in order, each once, until the first "
     "that fails; then does the cleanup of every step done, in reverse, each "
     "once and even after a cleanup has failed; and returns the status of the "
     "last cleanup to fail, or else of the step that failed, or else success. "
     "Each operand is evaluated exactly once.",
     ["inputs", "fault_sequences"],
     "every declared status; every error flag, component and reason; every "
     "routine, any of whose steps and cleanups fail",
     "the tests make one pair of codes, and no cleanup fails in them",
     ["include/rcpr/status.h", "include/rcpr/component.h",
      "include/rcpr/control.h", "include/rcpr/status/psock.h",
      "include/rcpr/status/fiber.h", "include/rcpr/status/general.h"],
     ["bit fields of the status word", "unwinding labels",
      "cascaded cleanup status"], TRACE,
     "every routine of up to three steps over three outcomes, random routines "
     "of up to five; all field boundaries and random fields")

prop("C28", "Method tables are checked before anything of them is called",
     "Built with RCPR_VTABLE_RUNTIME_ENFORCEMENT, the library calls no "
     "function of a method table that does not lie inside the program's vtable "
     "segment (__start_rcpr_vtable up to, not including, "
     "__stop_rcpr_vtable). Releasing a resource, allocating, reallocating, "
     "reclaiming or controlling through an allocator, and every psock "
     "operation on an object with such a table fails with "
     "ERROR_GENERAL_BAD_VTABLE and changes nothing: no memory changes hands, "
     "no system call is made, no byte moves, and with its table back the "
     "object goes on where it was. So it is when the object is reached through "
     "another: a buffered reader or asynchronous wrapper over such a psock "
     "passes the error on, and a container of, or a message over, such a "
     "resource is cleared or released with that status, releasing everything "
     "else it holds exactly once and leaving the bad object alone. Every "
     "object that the library makes, and every table declared RCPR_VTABLE by "
     "its user, passes the check, so in ordinary use nothing differs from a "
     "build without it.",
     ["inputs", "histories"],
     "every object with a method table, every operation on it, and every "
     "history of exchanging tables (for one on the heap, among constants, in "
     "data, and at either end of the segment) and putting them back",
     "the tests are built with assertions in place of enforcement and never "
     "exchange a table",
     ["include/rcpr/vtable.h", "src/resource/resource_release.c",
      "src/resource/resource_vtable_read.c", "src/allocator/allocator_reclaim.c",
      "src/psock/psock_read_raw_uint8.c", "src/psock/psock_br_fill.c",
      "src/psock/psock_wrap_async_read.c"],
     ["linker segment of method tables", "range check before each dispatch"],
     TRACE, "the library and drivers are compiled from the working tree with "
     "-DRCPR_VTABLE_RUNTIME_ENFORCEMENT (in place of the assertion the CMake "
     "build selects); one object of each of 22 kinds exhaustively, forests of "
     "up to 3 containers exhaustively and larger ones at random")


prop("C31", "Undoing is complete even when a part of it fails, and is told",
     "Whatever goes wrong while a library object is made or released, nothing "
     "of it is left behind and the caller learns of it. If making an object "
     "cannot have a block of memory, or a service of the system that it needs, every part made so far is let go of, also "
     "when letting go of one of them fails in turn. Releasing an object whose "
     "allocator reports a failure for any one of its blocks still lets go of "
     "every other block, child resource and descriptor exactly once. A call "
     "returns success if and only if no such failure happened in it; otherwise "
     "it returns the status of one of those that did: out of memory, the "
     "allocator's own error, or that of the service. This "
     "holds for every kind of object (containers and nested messages, "
     "bigints, stacks, threads, mutexes, conditions and locks, triggers, "
     "psocks and buffered readers of every kind, fibers, disciplines, and "
     "schedulers with fibers new, queued, waiting in mailboxes or on "
     "conditionals, idle or stopped, and with undelivered messages).",
     ["fault_sequences", "histories"],
     "every kind of object, every block or service it acquires failing to "
     "be had together with any one block failing to be handed back, and every "
     "refused block, failing service and allocation in the release of every "
     "object",
     "the tests inject no failure into cleanup, so an early return from one "
     "leaks or reports success unseen",
     ["src/fiber/common/fiber_scheduler_discipline_create.c",
      "src/fiber/common/fiber_scheduler_create_with_disciplines.c",
      "src/psock/psock_br_create_from_psock.c", "src/message/message_create.c",
      "src/message/message_discipline_get_or_create.c", "src/rbtree/rbtree_create.c",
      "src/platform/pthread/thread/thread_create.c"],
     ["goto-cleanup chains", "release functions that go on after a failure"],
     TRACE, "every place of the faults is enumerated, in pairs up to 12 (quick) "
     "or 24 (thorough) refusals deep; entries popped from queues of fibers are "
     "not refused (known finding run-queue-pop-refused)")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": m} for m in p["mech"]],
                            "observe_at": p["observe"],
                            "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": [], "not_applicable": [],
           "notes": "No hooks are compiled into /repo: every driver observes "
                    "the public API (the rbtree shape dump and the fiber "
                    "harness also read private headers) and links the sources "
                    "of the current working tree with allocator wrappers."}
    for p in P:
        if p["na"]:
            man["not_applicable"].append(
                {"property": p["id"], "reason": p["na"]})
            continue
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"python3 tools/check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
            "technique": p["technique"], "level": p["level"],
            "level_note": p["note"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
