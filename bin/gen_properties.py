#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
H="include/boost/atomic/detail/"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
P=[]
P.append(p("C01","Integer, bool, enum, pointer and flag operations compute what they document",
 "On any value of any integer (8 to 128 bits, signed or unsigned), bool, enumeration or pointer type, every operation leaves exactly the documented new value in the object and returns exactly the documented result (previous value, new value, or the non-zero / previous-bit test), with arithmetic wrapping modulo two to the width and pointers moving in whole elements. "
 "This is so for every operand (also compile-time constant operands), every permitted memory order, for owning atomics, references, their inter-process variants and atomic flags alike, and whichever way the operation is implemented in the build (compiler intrinsics, inline assembly, lock-based emulation).",
 ["inputs","histories","configurations"],"all operation sequences over all supported scalar types, values, operands, memory orders, object kinds and selectable x86-64 implementations",
 "The tests apply each operation to a few small constants in three builds; most assembly paths (constant operands, every width, the non-default back ends) and the boundary values, and operations applied to a state other operations left behind, are never compared with a model.",
 [H+"atomic_impl.hpp",H+"atomic_ref_impl.hpp",H+"atomic_flag_impl.hpp",H+"core_ops_gcc_atomic.hpp",H+"core_arch_ops_gcc_x86.hpp",H+"extra_ops_gcc_x86.hpp",H+"extra_ops_generic.hpp",H+"extra_ops_emulated.hpp",H+"core_operations_emulated.hpp",H+"core_ops_gcc_sync.hpp",H+"integral_conversions.hpp"],
 [("per-width operation classes selected by back end",H+"core_operations.hpp"),("asm CAS loops and flag outputs",H+"extra_ops_gcc_x86.hpp"),("locked read-modify-write",H+"core_operations_emulated.hpp")],
 [("object storage","the value bits",H+"atomic_impl.hpp")],["return values of operations and subsequent load()"]))
P.append(p("C02","Floating point operations match plain floating point arithmetic bit for bit",
 "For float, double and long double atomics and references, addition, subtraction and negation in all their forms (returning the old value, the new value, or nothing) store and return exactly what the same expression on plain variables yields, including signed zeros, infinities, NaN, subnormals and rounding. "
 "Load, store, exchange and compare-exchange move and compare the value representation only, so padding bits of long double never make equal values compare unequal.",
 ["inputs","histories","configurations"],"all operation sequences over all finite, infinite and NaN operands of the three types, in every build configuration",
 "The tests use a handful of small integral floating point values.",
 [H+"fp_ops_generic.hpp",H+"fp_ops_emulated.hpp",H+"extra_fp_ops_generic.hpp",H+"extra_fp_ops_emulated.hpp",H+"bitwise_fp_cast.hpp",H+"float_sizes.hpp",H+"atomic_impl.hpp",H+"atomic_ref_impl.hpp"],
 [("CAS loop over the bit representation",H+"fp_ops_generic.hpp"),("sign bit flip",H+"extra_fp_ops_generic.hpp"),("padding removal",H+"bitwise_fp_cast.hpp")],observe=["return values and load()"]))
P.append(p("C03","User-defined types are moved whole and compared by value representation",
 "For any trivially copyable type of any size (odd sizes and sizes above the widest native one included), load, store and exchange transfer every byte of the value unchanged, and compare-exchange succeeds exactly when the value representations are equal (the weak form may also fail), installing the desired value on success, leaving the object alone on failure, and always writing the previous value into the expected argument. "
 "Where the compiler can clear padding, padding bits of the object, of the expected and of the desired values never influence the outcome.",
 ["inputs","histories","configurations"],"all operation sequences over types of sizes 1 to 80 with and without padding, all byte contents, object kinds and configurations",
 "The tests use four struct types with one or two fixed values each, and padding is exercised with one layout.",
 [H+"atomic_impl.hpp",H+"atomic_ref_impl.hpp",H+"bitwise_cast.hpp",H+"storage_traits.hpp",H+"string_ops.hpp",H+"core_operations_emulated.hpp",H+"core_arch_ops_gcc_x86.hpp"],
 [("conversion between value and storage with padding cleared",H+"bitwise_cast.hpp"),("storage size selection",H+"storage_traits.hpp"),("byte-array storage comparison",H+"storage_traits.hpp")],observe=["return values, expected argument and load()"]))
P.append(p("C04","Concurrent operations on one object are atomic",
 "When any number of threads apply any mix of operations to one object, directly or through any number of references to it, the results of all operations and the final value are those of some one-at-a-time execution of the same operations consistent with each thread's order: no update is lost, no value is torn or invented, and two read-modify-writes never see the same predecessor. "
 "This holds for every value type and size, lock-free or not.",
 ["schedules","histories","inputs","configurations"],"all programs of concurrent operations and all their interleavings, on native hardware threads and under a controlled scheduler",
 "The tests sample a few operations on four types from two threads; almost all operation and type combinations never run concurrently, and no test controls the interleaving.",
 [H+"core_ops_gcc_atomic.hpp",H+"core_arch_ops_gcc_x86.hpp",H+"extra_ops_gcc_x86.hpp",H+"extra_ops_generic.hpp",H+"fp_ops_generic.hpp",H+"core_operations_emulated.hpp",H+"lock_pool.hpp","src/lock_pool.cpp"],
 [("locked instructions and CAS loops",H+"extra_ops_gcc_x86.hpp"),("lock chosen by object address","src/lock_pool.cpp")],[("lock states","the lock pool","src/lock_pool.cpp")],["per-thread operation results, final value"]))
P.append(p("C05","Operations touch only the object they are given",
 "An operation on an atomic object or through an atomic reference never changes any byte outside that object, nor a byte of a neighbouring object that another thread is modifying at the same time, and never accesses memory outside it. "
 "Operand and expected arguments keep their bytes, except that the expected argument of a compare-exchange receives the previous value.",
 ["inputs","histories","schedules"],"all types and sizes, offsets within arrays and pages, operations, and concurrent writers of adjacent bytes",
 "No test looks at the bytes around an object, places objects at the end of a mapped page, or writes neighbours concurrently.",
 [H+"atomic_ref_impl.hpp",H+"atomic_impl.hpp",H+"storage_traits.hpp",H+"bitwise_cast.hpp",H+"core_operations_emulated.hpp",H+"core_ops_gcc_atomic.hpp",H+"core_arch_ops_gcc_x86.hpp",H+"extra_ops_gcc_x86.hpp"],
 [("references use storage of exactly the value's size",H+"atomic_ref_impl.hpp"),("copies bounded by the value size",H+"bitwise_cast.hpp")],observe=["canary bytes around objects, guard pages"]))
P.append(p("C06","Memory orders and fences deliver the documented synchronization",
 "Plain writes made before an operation or fence with release semantics are visible after an operation or fence with acquire semantics that observes it, for every type, every operation and every combination of orders that promises it, including the success and failure orders of compare-exchange, waiting operations, and lock-based objects. "
 "Operations and fences that are sequentially consistent on both sides additionally never let two threads each miss the other's preceding write, and a signal fence orders accesses between a thread and a signal handler running in it.",
 ["schedules","programs","configurations"],"all pairs of synchronizing operations and orders over all types and implementations, and all interleavings of the resulting programs",
 "One test checks a store/load pattern on int; weakening an order on any other operation, or losing it in translation, is invisible to sequential tests and rarely visible on x86 hardware.",
 [H+"gcc_atomic_memory_order_utils.hpp",H+"memory_order_utils.hpp",H+"core_ops_gcc_atomic.hpp",H+"core_arch_ops_gcc_x86.hpp",H+"fence_ops_gcc_atomic.hpp",H+"fence_arch_ops_gcc_x86.hpp",H+"wait_ops_futex.hpp",H+"wait_ops_generic.hpp",H+"wait_ops_emulated.hpp","src/lock_pool.cpp","include/boost/memory_order.hpp"],
 [("translation of orders to the compiler's",H+"gcc_atomic_memory_order_utils.hpp"),("fence instructions",H+"fence_ops_gcc_atomic.hpp"),("lock acquire/release","src/lock_pool.cpp")],observe=["plain data read after synchronization"]))
P.append(p("C07","No wakeup is lost",
 "A thread blocked in a waiting operation returns once the object has a value different from the awaited one and a notify-all on that object has been issued after that change; a notify-one issued after the change releases at least one of the threads blocked on the object. "
 "This holds for every value type and implementation of waiting, for waits with and without a timeout, however the wait, change and notification interleave, and however many other objects and threads wait, notify or share internal resources at that time.",
 ["schedules","histories","programs","configurations"],"all programs of waiters, writers and notifiers over several objects and types, and all their interleavings",
 "The wait tests start one or two waiters with sleeps in between, so the windows in which a wakeup can be lost are not hit, and only a few objects wait at once.",
 [H+"wait_ops_futex.hpp",H+"wait_ops_emulated.hpp",H+"wait_ops_generic.hpp",H+"futex.hpp","src/lock_pool.cpp","src/find_address_sse2.cpp","src/find_address_sse41.cpp","src/find_address.hpp",H+"lock_pool.hpp"],
 [("re-check of the value before blocking",H+"wait_ops_futex.hpp"),("per-address wait states found by address search","src/lock_pool.cpp"),("requeue of waiters to the lock","src/lock_pool.cpp"),("SIMD address search","src/find_address_sse41.cpp")],
 [("wait state list","objects currently waited on per lock","src/lock_pool.cpp")],["which waiters return"]))
P.append(p("C08","Waits return only for a changed value and hand it back",
 "An untimed waiting operation returns only a value that differs from the awaited one and that the object really held at some moment during the call; notifications without a change, notifications of other objects, and spurious or failed kernel wakeups never make it return. "
 "A wait whose awaited value already differs returns at once without any notification.",
 ["schedules","histories","fault_sequences"],"all programs of waits, changes back and forth, spurious notifications and injected spurious wakeups, and their interleavings",
 "The tests wait for a single change; a value that changes back before the waiter runs, notifications without change and spurious kernel wakeups are not produced.",
 [H+"wait_ops_futex.hpp",H+"wait_ops_emulated.hpp",H+"wait_ops_generic.hpp",H+"futex.hpp","src/lock_pool.cpp",H+"atomic_impl.hpp",H+"atomic_ref_impl.hpp",H+"atomic_flag_impl.hpp"],
 [("load and compare loop around the blocking primitive",H+"wait_ops_futex.hpp")],observe=["value returned by wait"]))
P.append(p("C09","Timed waits neither time out early nor outlive their deadline",
 "A timed wait reports a timeout only when its deadline, on the clock it was given (a steady clock for relative timeouts), has passed and the value it returns equals the awaited one; otherwise it returns a value different from the awaited one and reports no timeout. "
 "It always returns once the deadline has passed, at once if it already had, for every clock, duration type and timeout value, whatever spurious wakeups and clock adjustments occur meanwhile; only a forward adjustment of a clock during the call may be noticed late. An exception thrown by the user's clock leaves the wait.",
 ["inputs","schedules","fault_sequences","configurations"],"all timeouts (negative, zero, sub-nanosecond, extreme), clocks (system, steady, user-defined, POSIX-mapped), types, and interleavings with changes and notifications",
 "The tests use a few hundred milliseconds on standard clocks and tolerate large errors; rounding, overflow, other clocks, clock jumps and premature wakeups are not produced.",
 [H+"wait_ops_futex.hpp",H+"wait_ops_emulated.hpp",H+"wait_ops_generic.hpp",H+"chrono.hpp",H+"futex.hpp","src/lock_pool.cpp","include/boost/atomic/wait_result.hpp","include/boost/atomic/posix_clock_traits_fwd.hpp"],
 [("deadline arithmetic per clock",H+"wait_ops_futex.hpp"),("rounding up of durations",H+"chrono.hpp"),("timed blocking in the lock pool","src/lock_pool.cpp")],observe=["wait result and clock reading at return"]))
P.append(p("C10","Inter-process atomics work across processes and mappings",
 "Inter-process atomics, references and flags placed in shared memory give the same atomicity, ordering, waiting and notification guarantees to threads of different processes, and to mappings of the memory at different addresses, as ordinary ones give to the threads of one process.",
 ["schedules","histories","inputs"],"all types, operations, numbers of processes and mapping addresses, and interleavings",
 "The tests run inter-process types inside one process and one mapping, where private and shared primitives and address-keyed state cannot be told apart; one test forks once.",
 ["include/boost/atomic/ipc_atomic.hpp","include/boost/atomic/ipc_atomic_ref.hpp","include/boost/atomic/ipc_atomic_flag.hpp",H+"wait_ops_futex.hpp",H+"wait_ops_generic.hpp",H+"futex.hpp",H+"core_operations.hpp",H+"wait_operations.hpp"],
 [("shared futex variants",H+"futex.hpp"),("address-free waiting loop",H+"wait_ops_generic.hpp")],observe=["results seen by each process"]))
P.append(p("C11","Resource exhaustion does not break waiting or emulated operations",
 "When memory cannot be allocated at any point inside the library, blocking and notifying operations and lock-based operations still give all their guarantees, only possibly less efficiently: no crash, no lost wakeup, no early or missing return, no corruption. "
 "Memory taken for waiting is reused or released, not leaked, however many objects have been waited on.",
 ["fault_sequences","schedules","histories"],"all placements of allocation failures over the wait, notify and lock operations of generated programs",
 "No test injects allocation failures or counts allocations.",
 ["src/lock_pool.cpp",H+"wait_ops_emulated.hpp",H+"lock_pool.hpp"],
 [("fallback to sleeping when there is no wait state","src/lock_pool.cpp"),("growth and reuse of wait states","src/lock_pool.cpp")],[("free list and capacity","unused wait states kept per lock","src/lock_pool.cpp")],["program completion and allocation balance"],))
P.append(p("C12","Lock-freedom and capability reports are consistent and true",
 "In every configuration the feature macros, the per-type constants and the per-object queries about lock-freedom and native waiting agree with each other, and an object reported lock-free really is: its operations need no part of the compiled library and stay atomic when the memory is seen at different addresses. "
 "Operations reported as available are available, fence macros included.",
 ["configurations","programs","inputs"],"all types, object kinds and combinations of target options and configuration macros",
 "The tests compare macros and constants for fixed types in three configurations, and never check that a reported lock-free operation uses no lock.",
 ["include/boost/atomic/capabilities.hpp",H+"capabilities.hpp",H+"caps_gcc_atomic.hpp",H+"caps_arch_gcc_x86.hpp",H+"wait_capabilities.hpp",H+"wait_caps_futex.hpp",H+"core_operations.hpp",H+"atomic_ref_impl.hpp",H+"fence_operations.hpp"],
 [("macro derivation",H+"capabilities.hpp"),("selection of native or emulated operations",H+"core_operations.hpp")],observe=["macros, constants, linkability without the library"]))
P.append(p("C13","The interface offers exactly the documented operations per kind of type",
 "Each kind of value type (integer, bool, enumeration, floating point, object pointer, other pointer, user type) offers exactly the documented operations, constructors, conversions and aliases, with the documented result types and without exceptions, for owning atomics, references and inter-process variants. "
 "Uses the documentation excludes do not compile: arithmetic on bool, on void, function or member pointers, bitwise operations on floating point, copying an atomic, modifying through a const one, non-trivially-copyable types, inter-process operations that are not lock-free.",
 ["programs","configurations"],"all programs applying one operation expression to one object kind of one value type",
 "The tests instantiate documented uses on fixed types and three negative examples; unwanted extra operations, wrong return types and missing noexcept are not noticed.",
 ["include/boost/atomic/atomic.hpp","include/boost/atomic/atomic_ref.hpp","include/boost/atomic/ipc_atomic.hpp","include/boost/atomic/ipc_atomic_ref.hpp","include/boost/atomic/atomic_flag.hpp",H+"classify.hpp",H+"atomic_impl.hpp",H+"atomic_ref_impl.hpp"],
 [("classification of value types",H+"classify.hpp"),("one implementation class per kind",H+"atomic_impl.hpp")],observe=["acceptance by the compiler, result type, noexcept"]))
P.append(p("C14","Objects start with the given value and are laid out as promised",
 "A default-constructed atomic holds a value-initialized object and a flag is clear, and construction from a value yields exactly that value; where initialization is constant, the object is usable before dynamic initialization. "
 "Size, alignment and address promises hold: every object is aligned for its operations wherever it is placed, the required alignment of references is at least natural, and the exposed value reference denotes the stored value.",
 ["inputs","configurations","programs"],"all types, sizes, values, placements (static, automatic, heap, array, member) and configurations",
 "The tests construct each type once on the stack with one value.",
 [H+"atomic_impl.hpp",H+"atomic_ref_impl.hpp",H+"atomic_flag_impl.hpp",H+"aligned_variable.hpp",H+"storage_traits.hpp",H+"bitwise_cast.hpp",H+"classify.hpp"],
 [("aligned storage member",H+"aligned_variable.hpp"),("constexpr constructors",H+"atomic_impl.hpp")],observe=["load() after construction, addresses, sizeof and alignof"]))
P.append(p("C15","Lock-based objects never deadlock or block unrelated operations",
 "Operations on non-lock-free objects and all waiting and notifying operations always complete when they need not block, whichever objects share an internal lock and for every lock pool size: a thread blocked waiting on one object never prevents operations, waits or notifications on another, a notification reaches the waiters of its object only through its object, and the mutual exclusion behind them never fails or stalls, not even when the user's clock throws out of a timed wait.",
 ["schedules","programs","configurations"],"all programs over several emulated objects, all lock pool sizes from one lock up, both locking implementations, and all interleavings",
 "The tests use few objects, the default pool size and one locking implementation; collisions of two objects on one lock are accidental.",
 ["src/lock_pool.cpp",H+"lock_pool.hpp",H+"core_operations_emulated.hpp",H+"wait_ops_emulated.hpp"],
 [("lock state machine and requeue","src/lock_pool.cpp"),("scoped locking",H+"lock_pool.hpp")],[("lock word","unlocked, locked, contended","src/lock_pool.cpp")],["completion of every operation"]))
P.append(p("C16","No operation has undefined behaviour on valid arguments",
 "With valid arguments no operation, in any configuration, executes undefined behaviour or reads indeterminate memory in a way that influences a result: no signed overflow, misaligned or out-of-bounds access, invalid shift, uninitialized read or memory leak, whatever the values, types and histories.",
 ["inputs","histories","configurations"],"all operation sequences over all types, values and object kinds",
 "The tests are not run under sanitizers and use small values that do not overflow.",
 [H+"atomic_impl.hpp",H+"atomic_ref_impl.hpp",H+"integral_conversions.hpp",H+"bitwise_cast.hpp",H+"extra_ops_generic.hpp",H+"core_operations_emulated.hpp",H+"fp_ops_generic.hpp",H+"chrono.hpp","src/lock_pool.cpp"],
 [("arithmetic on unsigned storage",H+"atomic_impl.hpp"),("casts through memcpy",H+"bitwise_cast.hpp")],observe=["sanitizer reports"]))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,x["id"]
    for fn in x["anchors"]["files"]:
        assert os.path.exists("/repo/"+fn),fn
