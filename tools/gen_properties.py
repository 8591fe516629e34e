#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
A='src/iso_alloc.c'; I='src/iso_alloc_interfaces.c'; S='src/iso_alloc_sanity.c'; U='src/iso_alloc_util.c'
M='src/malloc_hook.c'; T='src/iso_alloc_mem_tags.c'; P='src/iso_alloc_profiler.c'; H='include/iso_alloc_internal.h'
R='src/iso_alloc_random.c'; D='include/iso_alloc_ds.h'
def p(id,title,statement,over,q,why,files,mech,observe,hook=None,state=None):
    o=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: o['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return o
L=[]
L.append(p('P01','Live allocations are usable, large enough and pairwise disjoint',
 'Every successful allocation returns memory that is readable and writable for at least the requested number of bytes and is 8-byte aligned. That memory overlaps no other live allocation, no allocator metadata, no guard page and no chunk the allocator has set aside (canary chunks and permanently freed chunks). This holds whatever sequence of allocations and frees came before.',
 ['inputs','histories'],'all request sizes, all states of a zone that a history of valid calls can reach, all choices made by the random free list',
 'Tests allocate a few size ladders from fresh zones; the state space (which chunks are free, cached, canary or permanently freed, and in which order) is exponential and overlap needs a specific pre-state.',
 [A,H,D],[('slot selection and bitmap check',A+':_iso_alloc_bitslot_from_zone'),('free slot cache',A+':fill_free_bit_slots/get_next_free_bit_slot'),('zone choice',A+':find_suitable_zone/is_zone_usable'),('zone creation',A+':_iso_new_zone')],
 ['pointer returned by iso_alloc/iso_alloc_from_zone/malloc','page protection of the returned range'],
 state=[('allocation bitmap','two bits per chunk: in use / was used, both = set aside','iso_alloc_zone_t.bitmap_start'),('free slot cache','slots believed free','iso_alloc_zone_t.free_bit_slots')]))
L.append(p('P02','Requests that cannot be satisfied return NULL and never a short block',
 'An allocation request above the 4 GB limit, or whose element count times element size overflows, returns NULL (or aborts when the library is built to abort on NULL). No request ever succeeds with a block smaller than the bytes asked for, including requests within rounding distance of the largest representable size. A failed request leaves existing allocations untouched.',
 ['inputs'],'all 64-bit sizes, counts and private zone chunk sizes for the allocate, zeroed allocate, array reallocate and malloc-family entry points',
 'Tests use a handful of big constants; wrap-around happens only within a few bytes of the type limits or for particular products.',
 [A,I,M],[('size rounding',H+':ALIGN_SZ_UP/ROUND_UP_PAGE'),('multiply overflow check',A+':_iso_calloc'),('big size cap',A+':_iso_big_alloc')],
 ['return value of iso_alloc, iso_calloc, iso_reallocarray, malloc, posix_memalign']))
L.append(p('P03','Zeroed allocation returns all-zero memory of the full product size',
 'A successful zeroed allocation of n elements of s bytes returns at least n*s bytes, every one of which reads as zero, whatever the memory held before it was last freed. Overflowing products fail.',
 ['inputs','histories'],'all n and s up to the small/big boundary, arbitrary previous contents of the reused chunk',
 'Tests read a few calloc results that come from fresh (already zero) pages; a missed byte shows only for particular sizes in reused chunks.',
 [A],[('size computation and memset',A+':_iso_calloc')],['bytes of the block returned by iso_calloc/calloc']))
L.append(p('P04','Reallocation preserves contents and transfers ownership exactly once',
 'After a successful resize of a live block the result holds the first min(old usable size, new size) bytes of the old block, the old block has been released exactly once and the new block is live. Resizing a null pointer allocates, resizing to zero frees and returns NULL, and a failed resize leaves the old block live with its contents intact.',
 ['inputs','histories'],'all old and new sizes (small and big), all byte positions, null and zero-size arguments',
 'Tests resize along fixed ladders and rarely compare all bytes; ownership (exactly one release) is not observed.',
 [I,A],[('resize',I+':iso_realloc/iso_reallocarray'),('size query',A+':_iso_chunk_size'),('sized free',A+':_iso_free_size')],
 ['contents and liveness of both blocks after iso_realloc/iso_reallocarray/realloc']))
L.append(p('P05','Freeing a block affects only that block, which becomes reusable',
 'Freeing one live block never changes the contents or the liveness of any other live block. The freed memory itself becomes available again: after a non-permanent free the zone can hand out exactly one more block than before. Blocks of other zones and all guard pages are untouched.',
 ['inputs','histories'],'every live block of a zone in any reachable state, every other block observed',
 'Tests free in simple orders and never check unrelated blocks or count the recoverable capacity.',
 [A],[('free path',A+':iso_free_chunk_from_zone'),('free slot cache insertion',A+':insert_free_bit_slot'),('canary write',A+':write_canary')],
 ['bitmap/usage state and memory of other blocks around iso_free, iso_free_from_zone']))
L.append(p('P06','Double free always aborts before any state changes',
 'Releasing a block that is not currently allocated -- already freed, permanently freed, never allocated, or still waiting in the quarantine from an earlier free -- makes the process abort no later than when the second release is processed. This holds for small blocks, blocks of private zones and big blocks, through every free entry point.',
 ['inputs','histories'],'every non-live chunk state, any zone state, every free entry point',
 'Tests double-free one freshly freed chunk through one path; the check depends on bit state, word position and path.',
 [A],[('bitmap test',A+':iso_free_chunk_from_zone'),('big zone used list',A+':iso_find_big_zone/iso_free_big_zone')],
 ['process abort']))
L.append(p('P07','Freeing a pointer the allocator did not hand out always aborts',
 'Releasing any address that is not the start of a live block -- misaligned, interior, inside a guard page or bitmap, in a zone gap past its last chunk, one of the set-aside canary chunks, or foreign memory -- aborts the process. It never returns normally and never marks another block free.',
 ['inputs','histories'],'all 64-bit pointer values, any zone state',
 'There are 2^64 pointers; tests try four or five.',
 [A],[('alignment test',A+':_iso_free'),('zone lookup',A+':iso_find_zone_range'),('multiple of chunk size',A+':iso_free_chunk_from_zone'),('big zone lookup',A+':iso_find_big_zone')],
 ['process abort, unchanged bitmap']))
L.append(p('P08','Correct programs are never aborted',
 'A program that only frees what it allocated, once, and never writes out of bounds is never aborted by the allocator and always gets memory while the operating system provides it. This includes zones being filled, drained, retired and replaced, pointers being found through caches that went stale, chunk sizes that do not divide the zone, and the last chunk of a zone.',
 ['histories','inputs'],'all valid call sequences up to the stated length and all zone states satisfying the representation invariant',
 'Integrity checks fire on rare states (last chunk, bitmap sharing, zone 0 replaced, lookup table collisions) which the tests do not enumerate.',
 [A,S],[('consistency aborts',A+':find_suitable_zone, iso_free_chunk_from_zone'),('zone retirement',A+':_is_zone_retired/_iso_alloc_destroy_zone_unlocked'),('lookup tables',A+':_iso_new_zone')],
 ['absence of abort, non-NULL results']))
L.append(p('P09','A permanently freed block is never handed out again',
 'Once a block has been permanently freed its contents are overwritten and no later allocation from the same zone returns it or any part of it while the zone exists. For a big block the user pages and the page holding its metadata become inaccessible. No other block is affected.',
 ['histories','inputs'],'any chunk position, any later sequence of frees and allocations that empties and refills the zone',
 'Reuse is probabilistic (random free list), so a test that does not see reuse proves nothing.',
 [A],[('permanent marking',A+':iso_free_chunk_from_zone'),('big permanent free',A+':iso_free_big_zone')],
 ['addresses returned after iso_free_permanently/iso_free_from_zone_permanently; page protections']))
L.append(p('P10','Overwritten canaries are detected at the next check and intact ones never are',
 'Every free small block and every set-aside chunk carries an 8-byte canary at its first and last word whose lowest byte is zero and which differs between chunks. If any of those 16 bytes has been altered then verifying the zone, reusing that chunk, or freeing a directly neighbouring block aborts. The two canaries around big block metadata are checked in the same way whenever it is visited, and intact canaries never cause an abort.',
 ['inputs','histories'],'every corrupted byte position and value, every chunk, each detection point, any zone secret',
 'Tests overflow by a few fixed bytes; detection of every altered byte value at every detection point is a universal claim.',
 [A,S],[('write/check canary',A+':write_canary/check_canary/check_big_canary'),('neighbour check',A+':iso_free_chunk_from_zone'),('reuse check',A+':_iso_alloc_bitslot_from_zone'),('verification',S+':_verify_zone/_verify_all_zones')],
 ['process abort from iso_verify_zone(s), iso_alloc, iso_free; bytes of free chunks']))
L.append(p('P11','Quarantined frees are delayed, lossless and released exactly once',
 'A block freed through the default free is not handed out again until the quarantine is flushed. The quarantine never holds more than its documented capacity of 64 entries, flushing releases every entry exactly once, and explicit flush, overflow, zone destruction and shutdown all leave it empty.',
 ['histories','inputs'],'all fill levels of the quarantine and any block in it, each of the flush triggers',
 'Fill level interacts with flush triggers; tests do not look at what was released.',
 [A],[('enqueue',A+':_iso_free'),('flush',A+':flush_chunk_quarantine/flush_caches')],
 ['liveness of freed blocks before and after iso_flush_caches and the 65th free'],
 state=[('quarantine','pending frees','iso_alloc_root.chunk_quarantine, chunk_quarantine_count')]))
L.append(p('P12','User pages, bitmaps and metadata are bracketed by inaccessible guard pages',
 'At all times the page directly before and the page directly after every zone\'s user pages, every zone bitmap page, the zone table, the root structure and (where configured) each big block\'s pages is mapped inaccessible. User pages themselves are readable and writable over their whole extent. Releasing a zone or big block unmaps its pages together with their guards and nothing else.',
 ['histories','inputs','configurations'],'every zone size and big block size, zone creation, replacement and destruction, each guard related build option',
 'Tests do not inspect mappings; a misplaced guard page is invisible until an overflow happens.',
 [A,U],[('guarded mapping',U+':mmap_guarded_rw_pages/create_guard_page/unmap_guarded_pages'),('zone pages',A+':_iso_new_zone'),('unmapping',A+':_iso_alloc_destroy_zone_unlocked, iso_free_big_zone')],
 ['the calls made to mmap, mprotect and munmap (page permissions)']))
L.append(p('P13','Requests are served only from zones they are isolated to',
 'The general allocation entry points never serve from a private zone, and a private zone serves only requests made through its own handle. A request larger than 1024 bytes is never placed in a chunk eight or more times its size (rounded up to the 32-byte granularity of requests), and blocks of different chunk sizes never share a zone.',
 ['inputs','histories'],'all request sizes, all combinations of full/usable/retired/private zones including a stale per-thread cache',
 'Selection depends on the joint state of cache, lookup table and zone list; tests exercise the fast path.',
 [A],[('zone selection',A+':find_suitable_zone/is_zone_usable'),('thread zone cache',A+':populate_zone_cache')],
 ['zone owning the returned pointer and its chunk size']))
L.append(p('P14','Private zones deliver their advertised capacity and then report exhaustion',
 'A newly created private zone satisfies at least as many allocations as its advertised chunk count, each in its own memory, and when it is exhausted it returns NULL without touching other zones. A request for a private zone with a chunk size the zone cannot hold returns NULL. Destroying it releases its memory, leaves every block of every other zone intact and keeps the allocator usable.',
 ['histories','inputs'],'all private zone chunk sizes, any point in the life of the zone',
 'Tests create zones of a few power-of-two sizes and rarely exhaust them; odd sizes expose the arithmetic.',
 [A,I],[('capacity arithmetic',A+':_iso_new_zone'),('advertised count',I+':iso_zone_chunk_count'),('exhaustion',A+':is_zone_usable'),('destroy',A+':_iso_alloc_destroy_zone_unlocked')],
 ['results of iso_alloc_from_zone and iso_zone_chunk_count, state after iso_alloc_destroy_zone']))
L.append(p('P15','Sized free accepts exactly the sizes that fit and aborts otherwise',
 'Releasing a live block with a size no larger than its usable size releases exactly that block immediately. A size larger than the usable size, or a non-zero size for the zero-size block, aborts and leaves no other block changed. So does, for a big block, a size of 64 KB or less, which no request served by a big block can have had.',
 ['inputs'],'all sizes and all live small and big blocks',
 'Tests pass the original size or one wrong constant.',
 [A],[('size check',A+':_iso_free_size')],['abort or release after iso_free_size']))
L.append(p('P16','Big blocks are tracked exactly: no loss, duplication or oversize reuse',
 'Every live big block is on the in-use list exactly once and every cached free one on the free list exactly once, with counts that match, whatever the order of allocations, frees, queries and permanent frees. A cached block is reused only when it fits and wastes at most twice the documented bound, at most 64 are cached, and one used 16 times is unmapped instead of cached. A big block released for good gives all of its pages, metadata included, back to the system.',
 ['histories','inputs'],'all orders of allocate/free/query over up to the stated number of big blocks with symbolic sizes',
 'List manipulation bugs need specific removal positions (head, middle, tail) and query interleavings that the tests never do.',
 [A],[('used list search/removal',A+':iso_find_big_zone'),('reuse',A+':_iso_big_alloc'),('release',A+':iso_free_big_zone/_free_big_zone_list')],
 ['results of iso_alloc/iso_free/iso_chunksz for sizes above 64 KB; mmap/munmap calls'],
 state=[('big zone lists','masked singly linked used and free lists with counts','iso_alloc_root.big_zone_used/big_zone_free')]))
L.append(p('P17','Usable-size query is exact and free of side effects',
 'For every live block the usable-size query returns at least the size requested, the reported bytes all belong to the block, and the value equals what a resize preserves. Asking never changes any allocator state: the block can still be freed exactly once and every other block is unaffected. It is 0 for a null pointer and for the zero-size block and aborts for foreign pointers.',
 ['inputs','histories'],'any live block (small, private, big at any list position), any number of queries between other calls',
 'Tests print or compare the size once and exit.',
 [A],[('size query',A+':_iso_chunk_size'),('big lookup',A+':iso_find_big_zone')],['iso_chunksz/malloc_usable_size result and later frees']))
L.append(p('P18','Zero-size requests return one inaccessible non-null address, safe to free',
 'A zero-size request returns a non-null address of a page that can be neither read nor written, through every entry point and also when it is the very first call. Freeing it by any general free entry point any number of times has no effect, and it never aliases a real block.',
 ['inputs','histories'],'all entry points, all orders with respect to initialisation',
 'Tests only free one zero-size block and write to it once.',
 [A],[('zero page',A+':_iso_alloc/_iso_alloc_initialize'),('free shortcut',A+':_iso_free/_iso_free_size')],['iso_alloc(0), iso_calloc(n,0), page protection']))
L.append(p('P19','Duplicated strings are complete, terminated and in bounds',
 'Duplicating a string yields a block holding the same characters followed by a terminating NUL; the bounded form holds the first min(length, n) characters followed by a NUL. No byte outside the source string (or its first n bytes) is read and no byte outside the new block is written, whatever was in the memory before.',
 ['inputs'],'all strings up to the stated length, all n including 0, the length and length+1, dirty reused chunks',
 'Tests duplicate one constant string into fresh (zero) memory, where a missing terminator cannot be seen.',
 [I],[('duplication',I+':iso_strdup_from_zone/iso_strndup_from_zone')],['bytes of the result']))
L.append(p('P20','Aligned allocation entry points honour the alignment and validate it',
 'The aligned allocation entry points return memory aligned to the requested power of two, and the POSIX form rejects alignments that are not a power of two with EINVAL without storing a usable pointer. The result is at least as large as requested and can be released with the ordinary free.',
 ['inputs','histories'],'all alignments and sizes, any chunk of the serving zone',
 'Alignment depends on which chunk of which zone is picked; a test sees one.',
 [M],[('aligned entry points',M+':__posix_memalign/aligned_alloc/memalign')],['address returned by posix_memalign/aligned_alloc/memalign']))
L.append(p('P21','Leak and usage reports agree with the set of live blocks',
 'The per-zone leak report equals the number of live blocks in the zone: set-aside canary chunks and freed blocks are not counted. The usage report is in whole megabytes: the user and bitmap bytes of the zones, and the big blocks in use and cached including their metadata and guard pages, each part rounded down. Neither report changes any allocator state.',
 ['histories','inputs'],'any zone state, any mix of live, freed, permanent and canary chunks',
 'Tests compare the count after one fixed allocation pattern.',
 [P],[('leak count',P+':_iso_alloc_zone_leak_detector'),('usage',P+':__iso_alloc_mem_usage')],['iso_alloc_detect_zone_leaks, iso_alloc_detect_leaks, iso_alloc_mem_usage']))
L.append(p('P22','Memory tags round-trip and mismatched tags are caught',
 'In a tagging build, tagging then untagging any chunk pointer of a private zone gives back the original pointer, and verifying a correctly tagged pointer succeeds for every chunk size. Verifying or freeing a pointer whose tag is not the chunk\'s current tag aborts. Tags change when a chunk is freed, belong to exactly one chunk, and never overlap user memory.',
 ['inputs','histories','configurations'],'every chunk of private zones of every size class, every tag byte value',
 'Tests tag one chunk of a power-of-two zone; most tag values and sizes are never tried.',
 [T,A,I],[('tag lookup',T+':_iso_alloc_get_mem_tag'),('verify',T+':_iso_alloc_verify_tag'),('tag/untag',T+':_tag_ptr/_untag_ptr'),('refresh',T+':_refresh_zone_mem_tags')],
 ['iso_alloc_tag_ptr, iso_alloc_untag_ptr, iso_alloc_verify_ptr_tag, iso_alloc_get_mem_tag, iso_free_from_zone']))
L.append(p('P23','Checked memory functions copy exactly and abort on chunk overflow',
 'In builds that hook the memory functions, copy, move and fill have exactly the effect the C standard gives them, overlapping moves included. A copy or fill longer than the smallest chunk size, and longer than what is left of the chunk it starts in, in a zone found through the lookup table, aborts instead of crossing into the neighbour; accesses that fit never abort.',
 ['inputs','configurations'],'all lengths up to the bound, all byte positions, all starting chunks up to the end of the zone, both overlap directions',
 'Tests overflow by one fixed length near the start of a zone.',
 [S,'src/libc_hook.c'],[('bounds check',S+':_iso_alloc_memcpy/_iso_alloc_memmove/_iso_alloc_memset'),('byte loops',S+':__iso_memcpy/__iso_memmove/__iso_memset')],
 ['destination bytes, abort']))
L.append(p('P24','Sampled allocations are page isolated and their slack is verified on free',
 'In sanity builds a sampled allocation lives alone on a guarded page, is fully usable for its size and is released by every free entry point. Any change to the slack bytes of its page aborts on free, an untouched one never aborts, and the bookkeeping of samples never exceeds its table.',
 ['inputs','histories','configurations'],'all sizes below a page, both placements, every slack byte',
 'One in 10000 allocations is sampled, tests hit few.',
 [S,A],[('sampling',S+':_iso_alloc_sample'),('release',S+':_iso_alloc_free_sane_sample/check_sanity_canary'),('lookup',S+':_get_sane_alloc')],['blocks returned while sampling is forced']))
L.append(p('P25','Concurrent use is serialised: no data race, deadlock or leaked lock',
 'For any interleaving of calls from several threads the allocator behaves as if the calls ran one after another. Every access to shared allocator state is ordered by a lock, locks are always acquired in one order, no call re-acquires a lock it holds, and every call releases what it took before it returns.',
 ['schedules','histories'],'all interleavings at lock operations of the stated thread programs; all pairs of accesses',
 'Tests run a few threads for a few seconds and observe no crash; the number of interleavings is astronomically larger.',
 [A,S,P],[('root and big zone locks',H+':LOCK_ROOT/LOCK_BIG_ZONE_*'),('thread local zone cache',A+':populate_zone_cache'),('sample cache lock',S)],
 ['lock and unlock calls, shared memory accesses, results per thread']))
L.append(p('P26','Zone pointers stay masked at rest and handles are masked',
 'Whenever no call is in progress the addresses of a zone\'s user pages and bitmap are stored only in masked form with a per-zone secret, and links of big block lists only in masked form. A private zone handle differs from the address of the zone structure by a secret, and every API accepting a handle unmasks it consistently.',
 ['histories','inputs','configurations'],'every API call from any state, any secret, zones created, used, verified, leak-checked or full',
 'An extra or missing mask operation is invisible until the next use with a different path; tests never look at the stored form.',
 [A,S,P,H,I],[('mask macros',H+':MASK_ZONE_PTRS/UNMASK_ZONE_PTRS'),('handles','include/iso_alloc_internal.h/iso_alloc.h:UNMASK_ZONE_HANDLE'),('big list masks',H+':MASK_BIG_ZONE_NEXT')],
 ['contents of zone structures between calls']))
L.append(p('P27','Root protection makes the allocator inaccessible and is fully reversible',
 'Between protecting and unprotecting the root, the structure holding allocator state can be neither read nor written, and the lock every call needs is held, so no other call proceeds. After unprotecting, the allocator behaves as if the pair had not been called and no guard page has become accessible.',
 ['histories'],'any allocator state, any operations before and after',
 'Tests call the pair once on one state.',
 [A],[('protect/unprotect',A+':_iso_alloc_protect_root/_iso_alloc_unprotect_root')],['page protection of the root, later calls']))
L.append(p('P28','Initialisation happens once and destruction verifies and returns resources',
 'The library is usable from the first call whether initialised by constructor, explicitly, or lazily by the first allocation, and initialising again has no effect. Destroying it verifies every zone (aborting on a corrupted canary), flushes pending frees and, when built for cleanup, unmaps only memory the allocator mapped.',
 ['histories','configurations'],'each initialisation path, any state at destruction',
 'Tests exercise one path per binary.',
 [A],[('initialise',A+':_iso_alloc_initialize/iso_alloc_initialize_global_root'),('destroy',A+':_iso_alloc_destroy/_free_big_zone_list')],['API results, mmap/munmap calls, abort']))
L.append(p('P29','The free slot cache holds only distinct free in-range slots, for every seed',
 'Whenever the cache of free slots of a zone is refilled, it holds distinct slots that are all inside the zone and marked free in the bitmap, no slot is lost if the cache has room, and the order is a permutation chosen by the random source. Missing entropy aborts instead of continuing with a predictable seed, and each zone gets its own secrets.',
 ['inputs','histories'],'all bitmap contents within bounds, all seeds',
 'A bad shuffle or off-by-one duplicates or loses a slot only for certain seeds and bitmaps.',
 [A,R],[('refill and shuffle',A+':fill_free_bit_slots'),('entropy',R+':rand_uint64/us_rand_uint64')],['cache contents after refill, allocation order, abort']))
L.append(p('P30','Freed data does not survive in sanitising builds',
 'In a build with chunk sanitising, every byte of a block between the leading and trailing canary words is overwritten with the poison byte once its free is processed; a permanently freed small block is poisoned in every build. The pages of a freed big block are handed back to the system. The write never extends past the block.',
 ['inputs','configurations','histories'],'every byte offset of every chunk, small and big',
 'Tests sample no byte after free.',
 [A],[('poison write',A+':iso_free_chunk_from_zone/iso_free_big_zone')],['bytes of freed chunks']))
L.append(p('P31','C++ new and delete pair with the allocator for every form',
 'Every form of operator new returns memory meeting the same guarantees as a plain allocation of that size or fails in the way its signature promises, and the matching operator delete (plain, sized, aligned, nothrow) releases exactly that block.',
 ['inputs','programs'],'all sizes, all forms',
 'Tests use the default forms with small sizes.',
 ['src/iso_alloc.cpp'],[('operators','src/iso_alloc.cpp:operator new/operator delete')],['operator results and frees']))
L.append(p('P32','Diagnostics are formatted correctly without touching the heap or overrunning',
 'Any diagnostic the allocator prints shows each integer argument with its exact decimal or hexadecimal value, including zero, negative and largest values, and each string in full. Formatting never writes outside its buffer and never allocates.',
 ['inputs'],'all argument values for each conversion',
 'Only the log text of a few runs is ever seen, and never checked.',
 ['src/iso_alloc_printf.c'],[('formatter','src/iso_alloc_printf.c:_iso_alloc_printf/_fmt')],['bytes passed to write']))
L.append(p('P33','Profiling never changes allocation behaviour and counts exactly',
 'In a profiling build all allocation guarantees still hold, the allocation counter equals the number of allocations and the free counter the number of ordinary and permanent frees (sized and private zone frees are not profiled), distinct backtraces are recorded at most 128 times, and the trace query reports what was recorded. Profiler bookkeeping never writes outside its tables.',
 ['histories','configurations'],'all sizes including the largest small size, sampled and unsampled calls',
 'Sampling is 1 in 10000; the largest size class is never profiled by tests.',
 [P],[('sampling',P+':_iso_alloc_profile/_iso_free_profile'),('report',P+':_iso_output_profile')],['counters and tables']))
L.append(p('P34','Dangling-pointer search neutralises only matching words in zones',
 'Searching for a pointer value returns the address of a word in zone memory that holds exactly that value, or nothing if there is none; with poisoning enabled that word, and only that word, is redirected to the inaccessible use-after-free page. The crash handler aborts for every fault address.',
 ['inputs','configurations'],'all pointer values and all positions, unaligned ones included, up to the end of the zone',
 'Poisoning triggers once in a million frees.',
 ['src/iso_alloc_search.c','src/iso_alloc_signal.c'],[('search','src/iso_alloc_search.c:_iso_alloc_ptr_search'),('handler','src/iso_alloc_signal.c:handle_signal')],['memory before and after, abort']))
L.append(p('P35','Failures of operating system calls are fail-stop',
 'If a mapping, protection or entropy call fails at any point, the allocator aborts or reports failure; it never returns a pointer to memory it does not own, never continues without a guard page it reports as present, and never leaves a lock held after returning.',
 ['fault_sequences'],'failure injected at every single call to the operating system in initialisation, zone creation, big allocation and release',
 'The tests never make a system call fail.',
 [U,A,R],[('mmap/mprotect error handling',U+':mmap_pages/mprotect_pages'),('entropy error',R+':rand_uint64')],['abort or NULL after an injected fault']))
L.append(p('P36','Released memory is used again and what the allocator holds stays bounded',
 'A small request creates a new zone only when no zone that may serve it (not private, chunks at least as large as the request and within the waste bound) has a free chunk. A chunk that has been released and has left the quarantine is free again, unless it was released permanently. A zone that has served its lifetime is replaced in its own place once it is empty, and its old memory is returned. So repeating a cycle of requests and releases that ends with nothing live makes neither the zone table nor the memory of the process grow.',
 ['inputs','histories','configurations'],'every chunk position, request sizes at both ends of what a zone may serve, any number of lifetime requests of a zone',
 'Tests never fill several zones of one size and then look at where the next block comes from, and nothing in them measures growth.',
 [A],[('choice of a zone',A+':find_suitable_zone/is_zone_usable'),('free chunk becomes available',A+':iso_free_chunk_from_zone/insert_free_bit_slot'),('replacement',A+':_is_zone_retired/_iso_alloc_destroy_zone_unlocked')],['zones used, pages mapped, address of the next block']))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for o in L: f.write(json.dumps(o)+'\n')
print(len(L))
