#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state, hook=hook))


V = "include/fu/vec.h"

prop("C01", "Containers are values: shared storage is never seen through another handle",
     "A fu vector or string behaves as an independent value: after any sequence of copies, moves, self-referential appends, splices, slices, concatenations and in-place writes through any handle, every handle reads exactly the items a plain list put through the same operations would hold. Sharing of storage, reclaiming it in place, inline small storage and capacity growth are unobservable.",
     ["histories", "inputs"],
     "every sequence of container operations, every element type (trivial of 1 to 24 bytes, owning, move-only, nested), every size across the inline/heap and every power-of-two capacity boundary, every sharing state of the operands",
     "The tests exercise the container through compiled fu programs with a few fixed sequences; whether an operation aliases, reclaims or copies depends on the capacity, the sharing bit and the reference count together, a product no fixed sequence covers.",
     [V, "include/fu/str.h", "include/fu/vec/concat.h", "include/fu/vec/concat_one.h", "include/fu/vec/LEGACY_slice.h", "include/fu/vec/view_swap.h", "include/fu/mem/arc.h"],
     [("the one splice routine behind every operation", V + ": _Splice"), ("shared bit in the packed capacity and reference count", V + ": UNSAFE__MarkShared, slow_check_unique")],
     ["every item and the size of every live handle after every operation"],
     "runtime monitoring: model-based random histories of container operations against std::vector, under ASan+UBSan and in the optimised build",
     "held on the histories run; sharing state and size classes seen are counted in the evidence")

prop("C02", "Every element is destroyed exactly once and no freed memory is touched",
     "Across any history of container operations each element that was made is destroyed exactly once, none is used after its destruction, and every block is returned by the time the last handle is gone. No operation on valid arguments reads or writes outside live storage or relies on undefined behaviour.",
     ["histories", "inputs"],
     "every sequence of container and range operations over owning, copyable, move-only, string and nested elements, with every outcome of sharing and relocation",
     "The tests run without sanitizers and only notice leaks through totals at exit; a double destruction or a stale read in one sharing state shows as a wrong value, if at all.",
     [V, "include/fu/vec_range.h", "include/fu/mem/arc.h", "include/fu/mem/arc.cpp", "include/fu/mem/memswap.h", "include/fu/move_or_default.h"],
     [("relocation by memcpy and destruction of the abandoned block", V + ": _Splice, DESTROY/COPY helpers"), ("leak counters", "include/fu/mem/arc.cpp: fu_DEBUG_CNTDWN")],
     ["element ledger (made, live, destroyed, damaged)", "AddressSanitizer, UBSan, LeakSanitizer reports", "leak counters at exit"],
     "runtime monitoring: ASan, UBSan and LeakSanitizer plus an element ledger over random container histories",
     "sanitizers see the executions that ran")

prop("C03", "Views and ranges show and change exactly the part of the owner they denote",
     "A view, mutable view or growable range over a vector reads exactly the items of its part of the owner, writes through it change exactly those items, and inserting, deleting, appending or replacing through a growable range changes the owner as the same edit on a list would, leaving the items before and after the range as they were. Handles which shared the owner's storage before the edit do not change.",
     ["histories", "inputs"],
     "every owner size and sharing state, every position and length of the range, every edit through it, every element type",
     "The tests contain a handful of range programs; the edits are combinations of a cursor, a deletion and an insertion at both ends of a part whose owner may be shared.",
     ["include/fu/view.h", "include/fu/vec_range.h", V, "include/fu/vec/view_assign.h", "include/fu/vec/view_swap.h"],
     [("range edits forwarded to the owner's splice with shifted cursors", "include/fu/vec_range.h"), ("un-sharing before a mutable view is handed out", V + ": mut, data_mut")],
     ["owner, range and all former sharers after every edit"],
     "runtime monitoring: model-based random edits through views and ranges, under ASan+UBSan and in the optimised build",
     "held on the histories run")

prop("C04", "An out-of-range index stops the program; an out-of-range cursor is clamped",
     "Reading or writing an item through an index outside the container, view or range never touches memory: the program stops at that access, in debug and in optimised builds alike. Edit operations given cursors or counts outside the container act as if they were clamped to it and never corrupt it.",
     ["inputs", "configurations"],
     "every index and cursor a 32-bit integer can hold, including negative ones and the extremes, for every container kind, size and element type, in assertion and optimised builds",
     "Tests contain in-range programs, since an out-of-range one would end the test process.",
     ["include/fu/never.h", V, "include/fu/view.h", "include/fu/vec_range.h", "include/fu/assert.h"],
     [("index check turned into a trap on an impossible address", V + ": operator[], mutref"), ("cursor clamps", V + ": UNSAFE__Clamp")],
     ["how a child process that makes the access ends", "canary memory around the container"],
     "runtime monitoring: each hostile access in a child process under guard canaries and AddressSanitizer, in three builds",
     "held on the indices and containers tried")

prop("C05", "Storage shared between threads behaves as if each thread had its own copy",
     "When handles that share storage live on different threads, each thread using only its own handles, every thread reads and writes exactly its own value, no element is lost, duplicated or destroyed twice, and the last owner's reuse of the storage happens after all other owners' last accesses. No data race occurs.",
     ["schedules", "histories"],
     "every interleaving of copies, reads, in-place writes and releases of handles sharing storage, on any number of threads",
     "No test shares storage across threads; a wrong memory order shows on few schedules and few machines.",
     ["include/fu/mem/arc.h", V],
     [("atomic reference count", "include/fu/mem/arc.h: incr, decr, unique"), ("copy on write decision", V + ": slow_check_unique")],
     ["each handle against its own model on its own thread", "ThreadSanitizer reports", "live element count at the end"],
     "runtime monitoring: ThreadSanitizer and AddressSanitizer over threads exchanging sharing handles, each handle compared with its own model",
     "held on the schedules run")

prop("C06", "A parallel loop visits every index exactly once and then returns",
     "A parallel loop over n items runs its body on disjoint batches which together cover every index exactly once, each batch at least as long as asked for (or the whole loop), on any number of workers including none, for loops issued from several threads and from inside other loops. The call returns only after every batch has finished, what the bodies wrote is visible after it, and it does return.",
     ["schedules", "configurations", "inputs"],
     "every interleaving of workers and issuing threads, every worker count, every loop length and minimum batch, every nesting",
     "Tests run a few loops on an idle machine; a lost wake-up or an early return needs one particular interleaving.",
     ["include/par/parfor.cpp", "include/par/parfor.hpp", "include/lockfree/stack.hpp"],
     [("pending batch counter, its mutex and condition variable", "include/par/parfor.cpp: PBC_Decrement, PBC_Wait"), ("task stack", "include/lockfree/stack.hpp")],
     ["visits per index", "batches running at the moment of return", "threads that wait with nobody left to wake them"],
     "runtime monitoring: deterministic seeded scheduling of the real code (fibers at every atomic, lock and wait), plus ThreadSanitizer and delay-injected stress",
     "held on the schedules run; deadlock is decided logically in the scheduled runs")

prop("C07", "The lock-free stack is a linearizable LIFO stack",
     "Concurrent pushes (of single items or linked chains) and pops on the lock-free stack take effect one at a time in an order consistent with real time, as on a sequential last-in first-out stack: no item is lost, duplicated or popped by two threads, and a pop reports empty only if the stack was empty. A popper sees everything the pusher wrote into the item, also when items are reused while another popper is suspended.",
     ["schedules", "histories"],
     "every interleaving of pushes and pops, any reuse of items, with fewer than 2^18 operations during one operation's suspension",
     "No test drives the stack concurrently on purpose; ABA needs one suspended popper and a specific reuse.",
     ["include/lockfree/stack.hpp"],
     [("tagged head word", "include/lockfree/stack.hpp: tag, untag"), ("compare-exchange loops", "include/lockfree/stack.hpp: push, try_pop")],
     ["complete call/return histories", "ownership marks and payload of items"],
     "runtime monitoring: linearizability checking of recorded histories under deterministic seeded scheduling, directed ABA suspensions, ThreadSanitizer stress",
     "histories are short (up to some 20 operations); held on those run")

prop("C08", "Numbers become the right text and printing emits exactly the bytes given",
     "The decimal text of every signed and unsigned integer denotes exactly that integer in its shortest form, the text of every floating point number is its correctly rounded fixed notation with six decimals, and booleans print as 0 and 1. Printing writes exactly the bytes of its arguments in order and one newline.",
     ["inputs"],
     "all 64-bit integers, all single and double precision values including the largest, denormals, infinities and NaN, all byte strings",
     "Tests print a few small numbers.",
     ["include/fu/decstr.cpp", "include/fu/decstr.h", "include/fu/print.cpp"],
     [("digit generation into a small buffer", "include/fu/decstr.cpp"), ("print loop", "include/fu/print.cpp")],
     ["the strings returned", "the bytes that arrive in the output file"],
     "runtime monitoring: differential against the C library over structured and random values, under sanitizers",
     "held on the values tried")

prop("C09", "Deferred statements run exactly once, in reverse order, on every way out",
     "When a scope is left, by falling off its end, return, break, continue, a jump or an exception, every statement deferred in it before that point runs exactly once, in reverse order of deferral; those deferred for errors run only when an exception leaves the scope and those deferred for success only when none does. This holds also for scopes entered while another exception is being handled and for scopes entered by deferred statements.",
     ["programs", "fault_sequences"],
     "every nesting of scopes, every mix of deferred statements and every way of leaving each scope, at any depth of exception handling",
     "Tests defer in straight-line functions; exits during unwinding are not tried.",
     ["include/fu/defer.h"],
     [("guards comparing the number of exceptions in flight", "include/fu/defer.h")],
     ["the exact sequence of statements executed"],
     "runtime monitoring: random scope trees with random exits, event trace compared with a trace specification",
     "held on the scope trees run")

prop("C10", "Hot swapping points every slot at the newest loaded definition, or leaves it",
     "After each reload every registered slot points at the definition in the library version most recently loaded successfully that defines its symbol, else at its fallback; a missing, broken or incomplete library leaves the slots it cannot serve as they were. A reload request is served at once until the program first declares a safe point, afterwards exactly at the next safe point, and reloading leaves the library file in place and nothing beside it.",
     ["histories", "fault_sequences"],
     "every sequence of library replacements, removals and corruptions, reload signals, safe points and callback changes",
     "No test reloads a library.",
     ["include/dl/hotswap.cpp", "include/dl/hotswap.hpp"],
     [("reload on SIGUSR1, rename before dlopen", "include/dl/hotswap.cpp: try_reload, onSIGUSR1_reloadLibs"), ("manual mode", "include/dl/hotswap.cpp: onManualReload")],
     ["what each slot answers after every step", "the directory of the library"],
     "runtime monitoring: random reload histories with faults against a state machine model",
     "signals are raised synchronously; held on the histories run")

prop("C11", "Memory blocks are as large as promised; unsatisfiable requests end the program",
     "Every block handed out for container storage is at least as large as requested, fully usable, 16-byte aligned and disjoint from all live blocks, and containers keep their items across all capacity growth up to the largest size. A request which cannot be represented or satisfied ends the program with exit code 101 and never yields a short or null block.",
     ["inputs", "fault_sequences"],
     "every request size including those around 2 GiB and beyond 4 GiB, any number of live blocks, any memory limit",
     "Tests never come near the limits where sizes are truncated or memory runs out.",
     ["include/fu/mem/arc.cpp", "include/fu/mem/arc.h", V],
     [("rounding to powers of two with overflow checks", "include/fu/mem/arc.cpp: fu_POW2MEM_RoundUp"), ("capacity packing", V + ": UNSAFE__Pack")],
     ["contents of all live blocks", "how a child making an unsatisfiable request ends"],
     "runtime monitoring: painted blocks and containers under sanitizers, unsatisfiable requests in memory-limited children",
     "held on the sizes tried")

exec(open(os.path.join(here, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(here, "tools", "more_props.py")) else None

NOT = json.load(open(os.path.join(here, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(here, "tools", "not_applicable.json")) else []

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert all(os.path.exists("/repo/" + x) for x in p["files"]), p["files"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"] or [],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")

skip = {n["property"] for n in NOT}
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "/verif/evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P if p["id"] not in skip],
    "not_applicable": NOT,
    "notes": "No hooks in /repo: the checks observe through the public headers, the built compiler and compiled programs.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
