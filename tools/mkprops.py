#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Queue delivers every pushed element exactly once in FIFO order",
  "For every sequence of Push, Pop, Front, Back, Size, Empty, Shrink and Clear, starting from any construction (any requested buffer size, or a zero-value queue), the int queue behaves as an unbounded FIFO sequence: no element is lost, duplicated, invented or reordered, Push always succeeds, and Pop/Front/Back report ok=false exactly when the queue is empty. Size and Empty always equal the true element count. Shrink never changes the contents and reports true exactly when it reduced Cap().",
  ["histories", "configurations"], "all operation histories and all initial buffer sizes",
  "No existing test touches the queue; the interesting behaviour depends on where the ring wraps relative to growth/shrink, i.e. on long push/pop histories.",
  ["stl/queue.gp_int.go"], [("ring growth on full", "IntQueue.Push"), ("wrap of read index", "IntQueue.Pop"), ("re-layout on shrink", "IntQueue.Shrink")],
  [("head/tail", "read/write positions in the ring", "IntQueue"), ("d", "ring buffer", "IntQueue")], ["Push", "Pop", "Front", "Back", "Size", "Empty", "Shrink", "Cap"])
p("C02", "Deque is a faithful double-ended sequence under any history",
  "For every sequence of PushFront, PushBack, PopFront, PopBack, Front, Back, Size, Empty, Shrink and Clear, from any construction (any requested buffer size, or zero value), the int deque behaves as an unbounded double-ended sequence: contents and order are exactly those implied by the history, pushes always succeed, and pops/peeks report ok=false exactly when it is empty. Size and Empty equal the true element count, and Shrink never changes the contents and reports true exactly when it reduced Cap().",
  ["histories", "configurations"], "all operation histories and all initial buffer sizes",
  "No existing test touches the deque; wrap-around at both ends combined with growth and shrinking is only reached by particular histories.",
  ["stl/deque.gp_int.go"], [("ring growth at either end", "IntDeque.PushFront/PushBack"), ("re-layout on shrink", "IntDeque.Shrink"), ("cyclic index arithmetic", "IntDeque.next/prev")],
  [("head/tail", "first readable / first writable slot", "IntDeque")], ["PushFront", "PushBack", "PopFront", "PopBack", "Front", "Back", "Size"])
p("C03", "Stack is LIFO under any history",
  "For every sequence of Push, Pop, Top, Size, Empty, Clear and Init, from any construction (any buffer size, or zero value), the int stack behaves as an unbounded LIFO sequence: Pop returns exactly the most recent not-yet-popped element, Pop/Top report ok=false exactly when the stack is empty, and after Clear or Init it is empty. Size and Empty equal the true element count.",
  ["histories", "configurations"], "all operation histories and construction sizes",
  "No existing test touches the stack.",
  ["stl/stack.gp_int.go"], [("append/truncate", "IntStack.Push/Pop")], [("d", "element slice", "IntStack")], ["Push", "Pop", "Top", "Size"])
p("C04", "Heap object is a correct (optionally bounded) priority queue",
  "For every history of Push, Pop, Top, Size, Empty and Init, a max-top heap without limit always returns (and with Pop removes exactly one copy of) the largest element present, a min-top heap the smallest, with ok=false exactly when empty. With a limit N>0 the size never exceeds N and the heap retains exactly the N smallest (max-top) or N largest (min-top) elements of everything offered to it, in the sense of keeping a new element only when it is strictly better than the current top. The buffer exposed by the heap always satisfies the heap order.",
  ["histories", "configurations"], "all push/pop histories, capacities, limits and both orders",
  "TestHeap pushes one fixed array; heap order defects show only for particular value patterns and sizes.",
  ["stl/heap.gp_int.go"], [("sift up / sift down", "IntHeap.adjustUp/adjustDown"), ("bounded insert", "IntHeap.Push")], [("b", "heap array", "IntHeap"), ("limitN", "bound", "IntHeap")], ["Push", "Pop", "Top", "Buffer", "Size"])
p("C05", "Slice heap algorithms keep the multiset and establish order",
  "For every int slice, MakeHeap turns it into a heap holding the same multiset; PushHeap and PopHeap on a heap add or remove exactly one element (PopHeap the top one, ok=false exactly on an empty slice) and leave a heap; CheckHeap returns true exactly when every parent is not worse than its children. SortHeap leaves the same multiset, ascending for a max-top and descending for a min-top heap, and Reverse exactly reverses the slice, for every length including zero.",
  ["inputs", "histories"], "all slices (contents and lengths) and both orders",
  "TestHeap samples two arrays; correctness must hold for every array including duplicates and tiny lengths.",
  ["stl/heap.gp_int.go"], [("heapify/sort", "IntHeap.MakeHeap/SortHeap/PushHeap/PopHeap/CheckHeap/Reverse")], (), ["slice contents after each call"])
p("C06", "Sortable slices implement exact positional semantics and sorting",
  "For every history of Push, Insert, Remove, Pop, Get, MustGet, Sort, Len and Init on the int and tree-node sortable slices, the contents are exactly those of a plain sequence: Insert(v,i) with 0<=i<Len places v before the element at i, and otherwise appends; Remove deletes exactly the element at a valid index and reports it; invalid indices and Pop on empty report ok=false without changing anything, and MustGet panics exactly on invalid indices. Push and Insert return the new length, Buffer shows the contents, and Sort yields an ascending permutation.",
  ["histories", "inputs"], "all operation histories, indices and values",
  "No existing test uses the sortable slices; in-place append aliasing depends on spare capacity and index.",
  ["stl/sort_slice.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go"], [("slice surgery", "IntSortSlice.Insert/Remove/Pop"), ("sort.Sort adapter", "IntSortSlice.Less/Swap")], [("d", "elements", "IntSortSlice")], ["Buffer", "Len", "Get"])
p("C07", "Doubly linked list keeps exact sequence, links and node identity",
  "For every history of pushes, pops, insertions of fresh or removed nodes, removals, moves (front/back/before/after), rotations, Reverse, Clear and splicing of another list, with nodes belonging to that list as positions, the doubly linked list holds exactly the node sequence implied by the history. Forward and backward visiting, Front/Back and the nodes' Next/Prev cycle agree with it, node values and identities are preserved, and IsValidNode/Reachable are true exactly for nodes currently in the list. Splicing leaves the other list empty and reports whether there was anything to splice. A move that changes the order returns the moved node. A removed node has no neighbours, and trying to remove or move it again (or to use nil as a node) reports failure and changes nothing.",
  ["histories"], "all operation histories over nodes of the list and a second list",
  "No existing test uses the list; link corruption needs particular positions (head, tail, neighbours) and follow-up operations.",
  ["stl/list.gp_int.go"], [("circular links", "IntList.InsertBefore/InsertAfter/Remove/Move*"), ("splice", "IntList.InsertFrontList/InsertBackList"), ("Reverse", "IntList.Reverse")], [("head", "first node of the ring", "IntList")], ["Visitor.Next/Prev/Get", "Front", "Back", "node Next/Prev"])
p("C08", "Doubly linked list Sort is an ordered, stable permutation",
  "For every doubly linked list, Sort reorders the very same nodes (none lost, duplicated or replaced) into ascending value order, keeps equal elements in their original relative order, and leaves a well-formed list on which all later operations behave normally.",
  ["inputs", "histories"], "all value patterns and lengths",
  "No existing test sorts a list; merge-sort bin handling depends on the length's binary pattern and on ties.",
  ["stl/list.gp_int.go"], [("bottom-up merge sort", "IntList.mergeSort/merge")], (), ["node sequence after Sort"])
p("C09", "Singly linked list keeps exact sequence and node identity",
  "For every history of PushFront, PopFront, PushAfter, InsertFront, InsertAfter, RemoveFront, Remove, MoveFront, MoveAfter, Reverse, PushFrontList, Clear on nodes of the list, the singly linked list holds exactly the node sequence implied by the history, and Front, Len, Empty, the visitor and the nodes' Next/Tail all agree with it. A move that changes the order returns the moved node. A removed node leads nowhere, and trying to remove or move it again (or to use nil as a node) reports failure and changes nothing. Reachable and IsValidNode are true exactly for nodes that can be reached by following Next, and HasCycle is true exactly when following Next from the given node never ends.",
  ["histories"], "all operation histories over nodes of the list, plus all chain and rho shapes for HasCycle/Reachable",
  "No existing test uses the singly linked list.",
  ["stl/slist.gp_int.go"], [("link surgery behind a dummy head", "IntSList.InsertAfter/Remove/Move*"), ("two-pointer cycle check", "IntSList.HasCycle")], [("head", "dummy head node", "IntSList")], ["Visitor", "Front", "Len", "Empty", "Next", "Tail"])
p("C10", "Singly linked list Sort is an ordered, stable permutation",
  "For every singly linked list, Sort reorders the very same nodes (none lost, duplicated or replaced) into ascending value order, keeps equal elements in their original relative order, and leaves a well-formed list on which all later operations behave normally.",
  ["inputs", "histories"], "all value patterns and lengths",
  "No existing test sorts a singly linked list.",
  ["stl/slist.gp_int.go"], [("bottom-up merge sort", "IntSList.mergeSort/merge")], (), ["node sequence after Sort"])
p("C11", "Tree children and traversals always reflect the built structure",
  "For every history of AddChild, AddChildNode, RemoveChild and SortChildren building a tree, each node's children are exactly the sequence implied by the history (insertion before a valid index, otherwise append; removal by valid index; SortChildren orders by value keeping the same nodes). All and a visitor driven by Next enumerate every node of the subtree exactly once in preorder, a visitor driven by Prev enumerates it exactly once in reverse preorder, and stepping back and forth inside the traversal moves by exactly one position.",
  ["histories", "inputs"], "all tree-building histories and all visitor move sequences",
  "No existing test uses the tree; visitor stack handling depends on tree shape.",
  ["stl/tree.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go"], [("child slice", "IntTreeNode.AddChildNode/RemoveChild"), ("explicit stack traversal", "IntTreeNodeVisitor.Next/Prev")], (), ["All", "Visitor.Next/Prev/Get", "Children", "GetChild", "NumChildren"])
p("C12", "Comparators are strict orders and name/flag construction is exact",
  "For all ints, the Lesser comparator is exactly a<b and Greater exactly a>b (tree nodes are compared by value in the same way), regardless of which comparator value they were derived from. CreateByBool(true)/CreateByName(\"Greater\") give Greater, CreateByBool(false)/CreateByName(\"\")/CreateByName(\"Lesser\") give Lesser, String returns the name that recreates the comparator, and any other name panics.",
  ["inputs"], "all pairs of values and all names",
  "Only used indirectly by TestHeap.",
  ["stl/functorcmp.gp_int.go", "stl/functorcmp.gp_#inttreenodeb60b.go"], [("comparator dispatch", "CmpInt.F / CmpIntTreeNode.F")], (), ["F", "String", "CreateByName", "CreateByBool"])
p("C13", "SpinLock gives mutual exclusion, progress and misuse detection",
  "Under every interleaving of any number of goroutines, at most one goroutine is between a completed Lock and its Unlock, and writes made inside one critical section are visible in the next. A Lock contending with a holder that releases succeeds (it never panics or fails while the holder keeps the lock for less than 2^20 attempts), Unlock of a held lock never panics, and Unlock of a lock that is not held panics and leaves the lock usable.",
  ["schedules"], "all interleavings of lock/unlock programs",
  "No test exists; a data-dependent interleaving is needed to see two holders.",
  ["sync/spinlock.go"], [("CAS acquire/release", "SpinLock.Lock/Unlock")], [("state", "0 free / 1 held", "SpinLock")], ["Lock", "Unlock"])
p("C14", "RWSpinLock: writers exclusive, readers shared, no lost release",
  "Under every interleaving of readers and writers, a writer between Lock and Unlock excludes all readers and other writers, while any number of readers may hold the lock together. Every Lock/RLock eventually succeeds once the conflicting holders release (no release is lost, so the lock is reusable for ever), correctly paired operations never panic (as long as a conflicting holder keeps the lock for less than 2^20 attempts), and RUnlock without an active reader or Unlock without an active writer panics.",
  ["schedules", "histories"], "all interleavings of reader/writer programs",
  "No test exists; lost releases and reader/writer overlap need particular interleavings.",
  ["sync/spinrwlock.go", "sync/spinlock.go"], [("writer announcement on the reader count", "RWSpinLock.Lock/Unlock"), ("reader admission", "RWSpinLock.RLock/RUnlock")], [("readerCount", "active readers, negative while a writer is present", "RWSpinLock"), ("w", "writer lock", "RWSpinLock")], ["Lock", "Unlock", "RLock", "RUnlock"])
p("C15", "Fan-out copy delivers all data to every destination or reports an error",
  "For every source behaviour and every pattern of writer results, if Copys/CopysBuffer returns a nil error then every destination received exactly the complete source data and the returned count is its length. In every case each destination has received only a prefix of the source data in order, the count never exceeds what every destination accepted, a read error (other than EOF) or write error is returned, and a short write without error yields an error.",
  ["fault_sequences", "inputs", "configurations"], "all read chunkings, read errors, write errors/short writes at each call, number of destinations and buffer sizes",
  "No test exists; faults at a particular chunk and destination are needed.",
  ["io/io.go"], [("read/fan-out loop", "CopysBuffer"), ("WriterTo shortcut", "CopysBuffer")], (), ["returned count and error", "bytes received by each destination"])
p("C16", "Every hash method honours the hash contract and matches its algorithm",
  "For every method and every message split into writes in any way, with Sum interleaved anywhere and Reset at any point, the digest depends only on the bytes written since the last Reset and equals the named standard algorithm's digest (MD5, SHA1, SHA256, SHA512, CRC32-IEEE, CRC64-ISO). Sum appends to its argument without changing the state, Size equals the number of bytes Sum appends, Write always accepts all bytes, and an unknown method panics. The none method yields a constant per object that ignores written data and differs between objects.",
  ["histories", "inputs"], "all write/sum/reset histories and methods",
  "No test exists for hash.",
  ["hash/hash.go", "hash/none_hash.go", "hash/finger_print.go"], [("method dispatch", "HashMethod.New"), ("hash.Hash implementations", "NoneHash, Fingerprint")], (), ["Write", "Sum", "Reset", "Size"])
p("C17", "Fingerprint and string hash formats are exact functions of content",
  "For every content, the fingerprint digest is the 48-bit big-endian length followed by bytes 4..9 of MD5, 7..12 of SHA1 and 1..6 of CRC64-ISO, and its String is the same in 12-hex-digit groups joined by dashes; it follows the length set by Resetsize, and Size is the digest's length. StringHash is the lower-case hex digest and StringHashL prefixes it with the ten-digit zero-padded byte length and a dash.",
  ["inputs", "histories"], "all contents and write/reset/resize histories",
  "No test exists for hash.",
  ["hash/finger_print.go", "hash/hash.go"], [("digest assembly", "Fingerprint.Sum/String"), ("string helpers", "HashMethod.StringHash/StringHashL")], [("size", "bytes written", "Fingerprint")], ["Sum", "String", "StringHash", "StringHashL"])
p("C18", "Ranged integers never leave their range and report every overflow",
  "For every construction and every history of Set, Inc, Dec, Reset, ResetR and Init, the value of a ranged uint32/uint64 always lies in [min,max]; a construction, Init, Set, Inc or Dec that would leave the range (or with min>max) returns an error and changes nothing (a failed construction gives no object), and otherwise takes exactly the requested effect (Set, Inc and Dec return the previous value, Reset and ResetR true). Add, Sub, Mul, Div and Mod never modify the object and return the exact mathematical result with a nil error precisely when that result is representable and in range, and an error (never a panic) otherwise, including division by zero.",
  ["histories", "inputs"], "all ranges, values and operation histories",
  "No test exists; overflow happens at the extremes of the word size only.",
  ["math/range_uint32.go", "math/range_uint64.go"], [("range verification", "verify / verifyRange*"), ("wrap-around guards", "Add/Sub/Mul/Div/Mod/Inc/Dec")], [("val,min,max", "current value and bounds", "RangeUint32/RangeUInt64")], ["Get", "Val", "returned error"])
p("C19", "IsPrime is exact for every 32-bit number",
  "IsPrime(n) returns true exactly when n is a prime number, for every uint32 n.",
  ["inputs"], "all 2^32 inputs",
  "No test exists; wrong answers may be confined to single numbers such as squares of primes.",
  ["math/prime/prime.go", "math/prime/prime_data.go"], [("trial division by a prime table", "IsPrime"), ("prime table", "g_primes")], (), ["IsPrime"])
p("C20", "SqrtUint32 returns the square root rounded to the nearest integer",
  "SqrtUint32(n) equals the square root of n rounded to the nearest integer, for every uint32 n, and is therefore monotonic and exact on perfect squares.",
  ["inputs"], "all 2^32 inputs",
  "No test exists; defects of the bit-by-bit method show on narrow bands of inputs.",
  ["math/prime/prime.go"], [("bit-by-bit root", "SqrtUint32/step")], (), ["SqrtUint32"])
p("C21", "Bit, byte, word access, comma formatting and scalar conversions are exact",
  "For every uint32 value and index, GetBit/GetByte/GetWord return exactly that bit, byte or 16-bit word (least significant first) and an error with result 0 exactly when the index is out of range. CommaString of every uint64 is its decimal representation with a comma before every group of three digits counted from the right. Boolean/integer conversions map true to 1 and non-zero to true, float Equal is true exactly when the absolute difference is below 1e-6, and complex parts are returned unchanged.",
  ["inputs"], "all values and indices",
  "No test exists.",
  ["math/bits_bytes.go", "math/uint64.go", "math/bool.go", "math/float.go", "math/cplx/complex.go"], [("mask and shift", "GetBit/GetByte/GetWord"), ("group formatting", "Uint64.CommaString")], (), ["return values"])
p("C22", "Padding is block-aligned, reversible and never touches the caller's memory",
  "For every byte string and every block size from 1 to 255, the padded result is the shortest strictly longer multiple of the block size that starts with the input and is filled as specified (zeros, or the pad length for PKCS5/PKCS7); the input slice and the memory behind it are unchanged. Unpadding restores the original exactly (for zero padding: without its trailing zero bytes).",
  ["inputs"], "all inputs, capacities and block sizes",
  "No test exists; defects depend on length modulo block size and on spare capacity.",
  ["crypto/padding.go", "crypto/aes/aes.go"], [("padding length computation", "ZeroPadding/PKCS5Padding/PKCS7Padding")], (), ["returned slice", "caller's backing array"])
p("C23", "AES encrypter and decrypter are inverse over any message sequence",
  "For every 16/24/32-byte key and every sequence of messages passed through one encrypter, feeding the ciphertexts in order to one decrypter with the same key restores every message exactly, whichever byte or string variants are used. Each ciphertext equals AES-CBC with PKCS7 padding where the initial vector is the first block of the key and the chain continues across messages; inputs and key are never modified and other key lengths are rejected with an error.",
  ["histories", "inputs"], "all keys, message sequences and variant mixes",
  "No test exists; chaining makes the result depend on the message history.",
  ["crypto/aes/aes.go"], [("CBC chaining", "AESEncrypter/AESDecrypter"), ("PKCS7", "PKCS7Padding/PKCS7Unpadding")], [("blockMode", "CBC chain state", "AESEncrypter/AESDecrypter")], ["Encrypt", "Decrypt"])
p("C24", "INI loading follows one deterministic grammar for every text",
  "For every input text, however the reader chops it up, loading yields exactly the sections and key/value pairs of this grammar: lines are trimmed, blank lines and lines starting with ';' are ignored, [name] opens (or reopens) a section, key=value splits at the first '=' with both sides trimmed, a line without '=' is a key with empty value, entries with an empty key or before any named section are ignored, and a later duplicate key wins; a last line without newline counts. Sections and Keys list each name exactly once (Keys of an unknown section is empty) and GetString returns the stored value or else the given default; opening a missing file returns an error.",
  ["inputs"], "all texts and reader chunkings",
  "No test exists; parsing defects hide in rare line shapes.",
  ["encoding/ini/ini.go"], [("line loop", "Load"), ("lookup", "Sections/Keys/GetString")], [("sections", "parsed data", "IniFile")], ["Sections", "Keys", "GetString"])
p("C25", "Zero-copy string/bytes conversions alias exactly the same memory",
  "For every string and byte slice, StringBytes and BytesString return a value with identical contents and length over the very same memory (no copy, capacity equal to the length for StringBytes), and the pointer helpers return the address of the first byte. Writing through a converted value is seen by every alias at exactly that position, and memory of string literals is never reported writeable while heap memory is.",
  ["inputs", "histories"], "all lengths, sub-slices and write sequences",
  "The existing test only prints addresses.",
  ["unsafe/string.go"], [("header reinterpretation", "StringBytes/BytesString/StringPointer/BytesPointer")], (), ["contents, length, capacity, addresses"])
p("C26", "Factories create through exactly the currently registered creator",
  "For every history of AddCreater, RemoveCreater and Create on a string-keyed, int-keyed or the global factory, Create(type, args...) calls the creator most recently added and not removed for exactly that type once with exactly those arguments and returns its result, and returns nil when none is registered. Different types and different factories never influence each other.",
  ["histories"], "all registration/creation histories",
  "The existing test does not call the factory at all.",
  ["factory/factory.go", "factory/factorys.go", "factory/factoryi.go"], [("creator map", "FactoryS/FactoryI AddCreater/RemoveCreater/Create")], [("cmap", "registered creators", "FactoryS/FactoryI")], ["Create"])
p("C27", "Backtraces name the true call chain with true file and line",
  "For every call chain, Bt/BtFunc/BtFileLine describe exactly the calling function, file and line; Caller variants describe the frame the requested number of levels above the caller (empty beyond the outermost frame); Bts and the call stack list enumerate the frames innermost first with correct function, file and line for each, up to the documented maximum of 50. Assert(true) returns true and Assert(false) panics with the caller's backtrace.",
  ["programs", "inputs"], "all call chains (depth, closures, methods, deferred calls) and requested depths",
  "The existing test checks only the function-name prefix of one frame.",
  ["debug/backtrace.go", "debug/assert.go"], [("runtime.Caller/Callers depth arithmetic", "CallStackInfo/Bts/CallStackList")], (), ["returned strings"])
p("C28", "Reflection helpers agree with the type system",
  "For all values, New returns a pointer to a fresh zero value of the sample's exact type, distinct from the sample and from every other result; IsSameType is true exactly for identical dynamic types, Kind is the value's kind, and IsCmpableInnterType is true exactly for the predeclared integer, float and string types (not uintptr, named types, bool, complex or composites).",
  ["inputs"], "all dynamic types, including composed ones, and pairs of them",
  "The existing test only prints.",
  ["reflect/reflect.go"], [("reflect.TypeOf based tests", "New/IsSameType/Kind/IsCmpableInnterType")], (), ["return values"])
p("C29", "Random generators are race-free, reproducible and exact in range",
  "Under every interleaving of goroutines sharing one generator, all calls behave as if executed one after the other (no step lost or repeated): Rand advances the linear congruential sequence x'=x*7368787+2750159 mod 2^32 (32 bit) or x'=x*4294955897+4094975977 mod 2^64 (64 bit) by one element and returns it, Srand atomically replaces the seed and returns the previous one, Seed returns the current one. RandRange(a,b) consumes one element and reduces it modulo the width of the range: it always lies between a and b inclusive, in either order, up to the full word range, and every value of the range is attained for some seed; RandMax(n) is the same for the range 0..n-1, for every n>0.",
  ["schedules", "inputs", "histories"], "all interleavings of generator calls, seeds and ranges",
  "The package did not even build at the pinned commit; its test is not part of the suite.",
  ["math/rand/rand.gp_32.go", "math/rand/rand.gp_64.go", "math/rand/rand.go"], [("CAS loop on the seed", "Rand32T.Rand/Rand64T.Rand"), ("range reduction", "RandRange/RandMax")], [("seed", "generator state", "Rand32T/Rand64T")], ["Rand", "RandRange", "RandMax", "Srand", "Seed"])
p("C30", "Extended durations print and convert exactly",
  "For every duration of at least one day, String is the whole number of days followed by 'd' and the standard rendering of the remainder below one day; shorter (and negative) durations print as in the standard library, so the printed value always identifies the duration exactly. Days, Weeks, Hours, Minutes and Seconds are the duration divided by the unit, and ParseDuration agrees with the standard library.",
  ["inputs"], "all durations",
  "The package did not build at the pinned commit; its tests only print.",
  ["time/duration.go"], [("day split", "Duration.String")], (), ["String", "Days", "Weeks", "Hours", "ParseDuration"])
p("C31", "Triple-DES ECB is standard EDE and reverses for every key and text",
  "For every key (zero-extended or truncated to 24 bytes) and every plaintext, encryption equals standard 3DES-EDE in ECB mode over the zero-padded text and decryption restores the plaintext up to trailing zero bytes. Ciphertexts that are empty or not a multiple of the block size are rejected with an error, and inputs are never modified.",
  ["inputs"], "all keys and texts",
  "The package did not build at the pinned commit and has no test.",
  ["crypto/ecb/ecb.go", "crypto/padding.go"], [("EDE composition", "TripleDesEncrypt/TripleDesDecrypt")], (), ["returned bytes and errors"])
p("C32", "Text codec, keyed hash and RSA signing round-trip and reject tampering",
  "For every text without trailing zero bytes, decoding the encoded form restores it (byte and string variants agree with each other), malformed encodings (not base64, empty, or not whole cipher blocks) yield an empty result and never panic, hex conversion round-trips and rejects malformed hex, and the keyed hash is a deterministic function of the content, equal in both variants and different for different contents. For every generated key pair and message, a signature made by the server verifies at the client and fails for any altered message, signature, hash method or key; what the client encrypts the server decrypts, for every message that fits; longer messages and an empty ciphertext give an error. A PEM key is accepted with any text before or after it; a text that holds no PEM RSA key of the right kind is rejected with an error (a panic only in the Must variants).",
  ["inputs"], "all texts, signatures alterations and message lengths",
  "The package did not build at the pinned commit.",
  ["crypto/rsa/code.go", "crypto/rsa/rsa.go"], [("3DES+base64 codec", "Encode/Decode"), ("PKCS1v15", "Sign/Verify/Encrypt/Decrypt"), ("key generation", "GenRsaKeys")], (), ["return values"])
p("C33", "Registered error ids are unique and permanently name their text",
  "For every history and every interleaving of Reg, Get, String, New, Newf, StdErr and ShowAll in package errors, successful registrations get distinct consecutive ids up to 9999, starting behind the two predefined ones (1001 \"unknown error\" = ERRID_UNKNOWN, 1002 \"standard error\" = ERRID_STD); once the range is used up Reg reports an error, returns an id that is not valid and changes nothing. Get of a registered id always returns exactly the registered text and of any other number an error and the empty string; String and New(id).Error() give \"error#<id> (<text>)\" (\"invalid error id:<id>\" for others), Newf appends \": \" and the formatted message, StdErr(e) appends the text of e verbatim whatever characters it has, Id() returns the id, and ShowAll lists the count and every registered id in order. Concurrent calls are linearizable and free of data races and deadlocks.",
  ["histories", "schedules", "inputs"], "all registration histories, thread interleavings, id values and texts",
  "The package did not build at the pinned commit and has no tests; lost ids appear only under particular interleavings or at the end of the id range.",
  ["errors/errors.go", "errors/with_id.go", "errors/with_id_string.go", "errors/interface.go"], [("locked registration", "Reg"), ("id lookup", "errId.Get"), ("predefined ids", "ERRID_UNKNOWN/ERRID_STD")], [("g_id2err", "texts by id", "errors.go"), ("g_id_cur_max", "largest registered id", "errors.go")], ["Reg", "Get", "String", "Error", "ShowAll"])
p("C34", "Paths are kept in one clean form; splitting, joining and relating invert",
  "For every text, a fs path object holds the lexically cleaned path (no empty or '.' components, '..' resolved where possible, '.' for nothing), idempotently and identically through FilePath, Set, FormatPath, String, S and StringSys. SplitAll lists exactly the components (the root of an absolute path first) and joining them restores the path; Join/Joins, Dir, Base, Split, Ext, Abs, HasPrefix, Match, Split and FileName of the package agree with the lexical definitions on that form; Relate(root) is the shortest relative path that leads from root back to the path whenever both are absolute or both relative. FileSize.String gives the size in the largest unit (B..EB, powers of 1024) not above it with three decimals, correctly rounded, for every 64 bit value. GoPath is the src directory of the first GOPATH element, WorkPath (and so RelateWorkPath) follows every successful Chdir and no failed one, and FileLine, RelateFileLine and Func name the calling line and function.",
  ["inputs", "histories"], "all path texts, pairs of paths, sizes, Chdir histories",
  "The package did not build at the pinned commit; path defects hide in rare combinations of separators and dots.",
  ["fs/file_path.go", "fs/file_line.go", "fs/file_size.go", "fs/fs.go"], [("lexical cleaning", "FilePath/Set/FormatPath"), ("components", "SplitAll/Joins"), ("relating", "Relate/RelatePath"), ("unit choice", "FileSize.String")], [("gWorkPath", "cached working directory", "fs/file_line.go")], ["String", "SplitAll", "Joins", "Relate", "FileSize.String", "GoPath", "WorkPath"])
p("C35", "Directory listings and content hashes reflect the tree exactly",
  "For every directory tree, CollectSubs with every combination of options returns exactly the entries the options ask for, each once (FsFile: files, FsDir: directories, FsLeaf: only the directories without subdirectories, the start directory included, FsDeep: at all levels, FsFullPath: full path instead of name), and so do GetLeafDirs, GetSubDirs, GetSubFiles, GetSubs and GetDeepFiles; a symbolic link is an entry that is not a directory and is not followed by them; Statistic counts all directories (the start included), files and bytes, and its report names every directory it could not read. Hash and Fingerprint return a tree that mirrors the directory, with each node's path, kind, size (a directory's is the sum) and hash: of a file the method over salt and content, of a directory the method over salt and its children's printed hashes in increasing (size, hash) order - so it does not depend on names or listing order; visitors meet the nodes of that tree each once in the order of All, or backwards in the reverse order. A missing, unreadable or (for listings) non-directory path that has to be read, at any level, is reported as an error.",
  ["inputs"], "all directory trees, option sets, hash methods, permission and read faults",
  "The package did not build at the pinned commit and its tests only print.",
  ["fs/fs.go", "fs/file_path.go", "fs/tree.gp_filehash38b3.go", "fs/sort_slice.gp_#filehashtreenodef199.go"], [("recursive listing", "CollectSubs"), ("recursive hashing", "Hash/Fingerprint"), ("walk", "Statistic")], (), ["returned lists, trees, counts and errors"])
p("C36", "File operations act on exactly the named path and destination",
  "For every history of file operations through path objects, each operation (Create, OpenFile, Open, Mkdir, MkdirAll, fs.Create, Remove, RemoveAll, Rename, Move, Link, Symlink, Truncate, Chmod, Chown, Lchown, Chtimes, NewFile, Stat, Lstat, Readlink, EvalSymlinks) has exactly the effect, result and error of the operating system's operation on the object's path with the same arguments (all flags, permission bits, sizes and ids) and nothing else changes; the exported mode constants are the system's. A relative destination of Rename, Move, Link and Symlink is taken from the object's own directory, an absolute one as it is, and the returned path is that destination.",
  ["histories", "inputs"], "all operation histories over small path sets, destinations and permission states",
  "No test performs any file operation; wrong destinations appear only for particular path shapes.",
  ["fs/file_path.go", "fs/fs.go"], [("destination resolution", "relateThisPath/Move"), ("OS wrappers", "FilePathObject methods")], (), ["directory contents, modes, links, returned paths and errors"])
p("C37", "Registered values keep their id, name and value; other ids are rejected",
  "For every history of creating regers, registering values (Reg, MustReg, RegO, MustRegO), MaxReg, Set and FinishReg in package regable, regers get the ids 1..255 and each one's values the real ids 1,2,3,... up to its limit (1024, or the last accepted MaxReg n, accepted exactly for 1<=n<2^24 not below the number already registered), the full id being reger<<24|real; a registration beyond the limit or after FinishReg fails (panics) and changes nothing. A registered id and every object obtained for it always give the registered name and the last value set through either, obj.Id() is that id, String shows reger, real id, name and value, and the listings show all values in order; every other 32 bit id is invalid: errors from Get, Set and Name, a panic from GetNoErr, an invalid object, and nothing changes. Concurrent Get, Set, Name, GetNoErr and String by id or object are linearizable, free of data races and deadlocks.",
  ["histories", "schedules", "inputs"], "all registration histories, ids, interleavings of accesses",
  "The package did not build at the pinned commit and has no tests; invalid ids and the limits are the rare cases.",
  ["regable/reg.go", "regable/regable.go"], [("id allocation", "NewUint32Reger/Uint32Reger.Reg"), ("id resolution", "Uint32Id.get"), ("locked access", "_uint32Record")], [("g_u32_reger_list", "all regers", "regable/reg.go"), ("id_gen, reg_list", "values of a reger", "Uint32Reger")], ["Get", "Set", "Name", "String", "Ids", "Valid"])
p("C38", "Container templates keep their contract for every element type and option",
  "For every element type (comparable or not, with < or a Less method) and every supported option (GOGP_HasCmpFunc, GOGP_ImproveSTL on or off, GOGP_DefaultCmpType), the code generated from the templates in stl/gp (functorcmp, sort_slice, stack, queue, deque, heap, list, slist, tree) compiles and behaves as the container contracts say: the same FIFO/LIFO/priority/sequence semantics as the generated int containers, order decided only by the element's comparison in the chosen default direction, stable list sorts, no element lost, duplicated or mixed up. Generated with the options of stl/stl.gpg for int the templates give containers that fulfil every guarantee of the shipped stl package.",
  ["inputs", "histories"], "all element types and options, operation histories, contents",
  "No test instantiates a template; the shipped int containers do not exercise the other branches.",
  ["stl/gp/functorcmp.gp", "stl/gp/sort_slice.gp", "stl/gp/heap.gp", "stl/gp/list.gp", "stl/gp/slist.gp", "stl/gp/queue.gp", "stl/gp/deque.gp", "stl/gp/stack.gp", "stl/gp/tree.gp"], [("comparison by option", "functorcmp less/great"), ("STL style adjustDown", "heap.gp GOGP_ELSE branch"), ("tree node order", "tree.gp Less")], (), ["all operations of the generated containers"])
p("C39", "The singly linked list template with a tail keeps it at the last node",
  "For the SList template generated with GOGP_HasTail, after every history of all its operations (those of the plain list and PushBack, PopBack, MoveBack, PushBackList, Sort) Back is exactly the last node (nil when empty), the list holds exactly the node sequence implied by the history, PopBack and PopFront take the values from the ends, PushBackList moves all nodes of the other list behind the own ones and leaves the other empty, and MoveBack of nil or of a removed node reports failure and changes nothing.",
  ["histories"], "all operation histories",
  "The option is not instantiated anywhere in the repository; a stale tail shows only when a later operation uses it.",
  ["stl/gp/slist.gp", "stl/gp/slist.gp.go"], [("tail maintenance", "GOGP_HasTail branches")], [("tail", "last node", "SList")], ["Back", "PushBack", "PopBack", "MoveBack", "PushBackList", "visitor"])
p("C40", "The lock-free queue template is a linearizable stack with an exact size",
  "For the LFQueue template, under every interleaving of PushFront, PopFront and Empty the calls behave as if executed one after the other on a stack: every pushed value comes out exactly once, last in first out, PopFront fails only when it is empty. Clear removes every value pushed before it and invents or duplicates nothing, and whenever no call is in progress Size is exactly the number of values held and Empty says whether it is 0. No call races on data.",
  ["schedules", "histories"], "all thread interleavings and operation histories",
  "The template is not instantiated anywhere in the repository; lost updates need particular interleavings.",
  ["stl/gp/lfqueue.gp", "stl/gp/lfqueue.gp.go"], [("CAS on the head", "PushFront/PopFront"), ("size counter", "PushFront/PopFront/Clear")], [("head.next, size", "contents and count", "LFQueue")], ["PushFront", "PopFront", "Clear", "Size", "Empty"])
p("C41", "The lock-free deque template is a bounded deque and a queue between two threads",
  "For the LFDeque template with a buffer of n slots (8 by default), every history of PushFront, PushBack, PopFront, PopBack, Clear and Init by one thread that never holds more than n-1 elements behaves as a deque (all ends, Size and Empty exact). With one thread that only pushes at one end and another that only pops at the other end, under every interleaving the values come out in the order they were pushed, each exactly once, a pop fails only when it is empty, and a push on a full deque waits until there is room.",
  ["schedules", "histories"], "all operation histories and interleavings of one producer and one consumer",
  "The template is not instantiated anywhere in the repository; wrapping and races need particular positions and interleavings.",
  ["stl/gp/lfdeque.gp", "stl/gp/lfdeque.gp.go"], [("CAS on head and tail together", "push/pop loops"), ("cyclic index", "next/prev")], [("headtail, d", "contents", "LFDeque")], ["PushFront", "PushBack", "PopFront", "PopBack", "Size", "Empty"])
p("C42", "Every generated kind of registry fulfils the registry contract, independently",
  "For every kind declared in regable/reg.gpg (Bool, Uint32, ConstUint32, NoNameConstUint32, String, ConstString, Inerface, ConstInerface, Uint64, ConstUint64, NoNameConstUint64) the code generated from regable/reg.gp compiles, all kinds together in one package, and each one fulfils the registry contract: regers numbered 1..255, real ids 1,2,3,... up to the limit, a registered id permanently gives its name and last value, every other id is rejected and changes nothing, FinishReg and the limit end registration, String and listings show all values in order. Kinds do not influence each other; constant kinds offer no Set, nameless ones no name, Reverse of a bool atomically negates it and returns the new value. Concurrent Get, Set, Reverse, Name, GetNoErr and String are linearizable, free of data races and deadlocks.",
  ["histories", "schedules", "inputs"], "all kinds, registration histories, ids, interleavings of accesses",
  "The generated kinds are not in the repository and no test instantiates the template.",
  ["regable/reg.gp", "regable/reg.gpg"], [("id allocation", "New<Kind>Reger/Reg"), ("id resolution", "<Kind>Id.get"), ("locked access", "record Get/Set/Reverse")], [("reger list", "all regers of a kind", "reg.gp")], ["Get", "Set", "Reverse", "Name", "String", "Ids", "Valid"])
p("C43", "The random generator template gives the same generator as the shipped code",
  "The package generated from math/rand/rand.gp with math/rand/rand.gpg compiles and its 32 and 64 bit generators fulfil every guarantee of the shipped ones: under every interleaving Rand, Srand, Seed, RandRange and RandMax behave as if executed one after the other on the linear congruential sequence with the documented constants, and RandRange and RandMax always lie in the range, in either order and up to the full word range, and attain each of its values for some seed.",
  ["inputs", "schedules"], "all seeds, ranges, interleavings",
  "No test generates code from the template.",
  ["math/rand/rand.gp", "math/rand/rand.gpg"], [("recurrence", "Rand methods of the template")], (), ["returned numbers and seeds"])
p("C44", "The mapping template is a bijection between keys and values",
  "For the template regable/gp/mapping.gp with every key and value type, after every history of Insert, RemoveByKey, RemoveByValue, Clear and Init: Find(k)=v exactly when ReverseFind(v)=k exactly when the pair was inserted and not removed since. Insert returns the key as id; with a key or a value that is in use it reports an error and changes nothing; a remove reports whether the key or value was present and removes both directions.",
  ["histories"], "all operation histories over all key and value types",
  "The template is not instantiated anywhere in the repository.",
  ["regable/gp/mapping.gp", "regable/gp/mapping.gp.go"], [("two maps kept together", "Insert/Remove")], [("both maps", "pairs", "mapping.gp")], ["Find", "ReverseFind", "Insert", "RemoveByKey", "RemoveByValue"])
p("C45", "The ring buffer template is a bounded FIFO queue for any number of threads",
  "For the RingBuffer template initialised with Init(n) the capacity is n rounded up to a power of two, at least 8. Under every interleaving of Push, MustPush, Pop and MustPop by any number of threads the successful calls behave as if executed one after the other on one queue that never holds more than its capacity: every pushed value comes out exactly once, in the order pushed, and no slot is read before it was written or overwritten before it was read. MustPush waits only while it is full and MustPop only while it is empty, and both then succeed; Push fails only when the values held (counting pushes and pops in progress) fill the capacity, Pop only when no value is left that no other call takes; with one thread Push succeeds exactly if there is room and Pop exactly if it is not empty. When no call is in progress Size is exactly the number of values held and Empty says whether it is 0. Data races are absent.",
  ["schedules", "histories"], "all operation histories, capacities and thread interleavings",
  "The template is not instantiated anywhere in the repository; overtaken slots need particular interleavings at a full or empty ring.",
  ["stl/gp/ringbuffer.gp.go"], [("tickets", "head_r/tail_r reservations"), ("publication in order", "CAS on head and tail")], [("head, head_r, tail, tail_r, d", "contents", "RingBuffer")], ["Push", "MustPush", "Pop", "MustPop", "Size", "Empty", "Cap"])
p("C46", "The containers of the file hash trees keep the container contracts",
  "For every history of AddChild, AddChildNode, RemoveChild and SortChildren on FileHashTreeNodes of package fs, each node's children are exactly the sequence implied by the history (insertion before a valid index, otherwise append), sorted by increasing (Size, Hash) after SortChildren; All, visitors going forth (preorder) and back, NumChildren and GetChild agree with it. A FileHashTreeNodeSortSlice holds exactly the sequence implied by Push, Insert, Remove, Pop, Swap, Init and Sort (an ascending permutation of the same nodes), rejects invalid indices (MustGet panics) and its Less is the order of the nodes. CmpFileHashTreeNode Lesser is exactly the nodes' Less and Greater its converse; CreateByBool, CreateByName, CreateCmpFileHashTreeNode and String correspond to each other, and any other name panics. Nodes compare by size, then hash, only.",
  ["histories", "inputs"], "all operation histories, value pairs, contents and names",
  "No test uses these types; hashing a directory only appends and sorts.",
  ["fs/tree.gp_filehash38b3.go", "fs/sort_slice.gp_#filehashtreenodef199.go", "fs/functorcmp.gp_#filehashtreenodef199.go", "fs/file_path.go"], [("child slice", "FileHashTreeNode.AddChildNode/RemoveChild"), ("explicit stack traversal", "FileHashTreeNodeVisitor.Next/Prev"), ("order", "FileHash.Less")], (), ["All", "Visitor", "Children", "Buffer", "Get", "F", "String"])
p("C47", "Independent objects never interfere, in one goroutine or in several",
  "What is done with one object (a container, hash, cipher, key, factory, ini file, ranged number, generator, path, directory listing or content hash) never changes the results of another one: two pieces of code that work on objects of their own may be interleaved in any way, in one goroutine or running at the same time in two, without data races, and each gives exactly the results it gives alone. They may share inputs they only pass in (keys, texts, numbers), which are never written to, and objects they only read (Size, Front, Get, visitors, Verify and Sign, GetString, Create of a factory, Get and Name of registered values, listings of the same directory). The pure functions (IsPrime, SqrtUint32, padding, codecs, hashes of strings, comparators, conversions, path functions, backtraces) may be called from any number of goroutines, as may the error registry, the generators of package rand itself and strings.Rand.",
  ["schedules", "histories"], "all interleavings of independent uses",
  "Tests are sequential and use one object at a time; hidden shared state (a scratch buffer, a cache, a counter in a package variable) shows only under interleaving.",
  ["stl", "hash/none_hash.go", "hash/hash.go", "crypto", "math", "fs", "factory", "encoding/ini/ini.go", "regable/reg.go", "errors/errors.go", "debug/backtrace.go"], [("package variables", "gId, g_primes, gCrc6ISO4Table, bytesNames, g_factory"), ("scratch memory", "IntList.mergeSort, IntSList.Sort, PKCS7Padding, Copys")], (), ["results of every exported operation", "data races"])
p("C48", "Random strings have exactly the asked length and only letters",
  "strings.Rand(rule, n) returns, for every rule (any combination of the flags, any length limit in its low half) and every n>=0, a string of exactly n bytes, all of them upper-case letters A..Z (for every rule: the other alphabets are not used yet). Every letter occurs (any 2^12 consecutive letters contain all 26), strings of 16 letters or more are not repeated in the next hundred thousand calls, nor 16 letters within the next million letters of one string, and a string once returned never changes.",
  ["inputs", "histories"], "all rules, lengths and states of the generator",
  "The test prints five strings and checks nothing.",
  ["strings/rand.go", "math/rand/rand.gp_32.go"], [("one draw per letter", "Rand")], [("rnd", "the generator all calls share", "strings/rand.go")], ["Rand"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
