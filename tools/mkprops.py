"""Writes properties.jsonl from the table below."""
import json
RM='src/raw/mod.rs'; AL='src/raw/alloc.rs'; PR='src/raw/probe.rs'; MP='src/map.rs'; ST='src/set.rs'
PK='src/raw/utils/parker.rs'; SK='src/raw/utils/stack.rs'; TG='src/raw/utils/tagged.rs'; CT='src/raw/utils/counter.rs'; GU='src/raw/utils/mod.rs'
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})

p('P01','Sharing across threads compiles only when keys and values allow it',
  'A map, a set, a pinned view or an iterator can be sent to or shared with another thread only when every key, value, hasher or guard that the other thread could then drop, move or borrow has the Send or Sync that needs. Conversely, types that are Send and Sync give a map and a set that are Send and Sync.',
  ['programs'],'for every client program and every choice of key, value, hasher and guard type',
  'the tests only instantiate types that are Send and Sync; whether a program that must be rejected is rejected is not observable by running one that compiles',
  [MP,ST,RM],[('unsafe impl Send/Sync for HashMap',RM),('unsafe impl Send/Sync for HashSet',ST),('unsafe impl Send/Sync for Iter',RM)])
p('P02','References obtained from a map cannot outlive their guard or their map',
  'Every reference to a key or value handed out by a lookup, an update, a removal or an iterator is borrowed from both the guard and the map used to obtain it, so that a program which uses it after the guard was dropped, refreshed or flushed through a mutable borrow, or after the map was dropped or moved, does not compile.',
  ['programs'],'for every client program written in safe Rust','a test can only contain programs that compile',
  [MP,ST,RM],[("'g lifetime on every accessor",MP),('pinned views borrow their own guard',MP)])
p('P04','A guard of another collector is rejected before memory is touched',
  'Every operation that takes a guard from the caller panics if the guard belongs to a different collector, and it does so before it reads or changes anything reachable from the table.',
  ['inputs','programs'],'for every public operation that takes a guard and every guard','one test exercises one operation with a wrong guard; the guarantee is per operation and about what happens before the panic',
  [RM,MP,ST],[('verify',RM),('guard-taking public methods',MP)])
p('P05','Memory that may have been reclaimed is never read',
  'An operation reads a key or a value only through a pointer that it loaded from a slot under its guard (or that it allocated and has not given up, or that it has frozen in place), with acquire ordering, and that it has checked not to be a null or deleted marker.',
  ['schedules','histories'],'for every interleaving of operations, resizes and reclamations','use-after-free needs a particular interleaving of a removal, a reclamation and a stale load; the tests sample a few',
  [RM],[('guard.protect / guard.compare_exchange',RM),('null checks on unpacked pointers',RM)])
p('P06','Every displaced entry is retired exactly once, after it was unlinked',
  'An entry that an operation replaced or removed is handed to the reclamation scheme exactly once, only after the atomic operation that unlinked it succeeded, and with the reclaimer that matches how it was allocated. No entry that is still linked is retired.',
  ['schedules','histories'],'for every interleaving and every history of updates and removals','leaks and double frees appear only on particular races and are invisible to assertions on results',
  [RM],[('defer_retire after a successful exchange',RM)])
p('P07','An entry reachable from an older table outlives that table',
  'When an entry that was carried over by an incremental resize is replaced or removed while the resize is still running, its reclamation is postponed until the table it was carried from is reclaimed. It is neither reclaimed at once nor forgotten.',
  ['schedules','histories'],'for every interleaving of an update or removal with an incremental resize, including nested resizes','the window is the time between the copy of one entry and the end of the resize; a premature reclamation shows only under a reader in the old table',
  [RM,AL,SK],[('BORROWED tag and the deferred stack',RM),('drop_table drains the stack',RM)])
p('P08','A value that was not inserted is given back or dropped exactly once',
  'When an insertion or update does not put the value it prepared into the map, the value is returned to the caller or dropped exactly once and its memory is released; when it does, the operation keeps no other owner of it.',
  ['schedules','inputs','histories'],'for every outcome of the race to insert or update a key','failed attempts after a retry or an abort are rare schedules, and a leaked or doubly owned value is invisible to the assertions',
  [RM,MP],[('RawInsertResult::Error',RM),('LazyEntry and the compute state cache',RM)])
p('P09','Dropping a map frees every table and every live entry exactly once',
  'Dropping a map releases every table that is still linked and every entry that is still live in any of them, each exactly once, in a state in which no deferred reclamation can run afterwards.',
  ['histories','crash_points'],'for every history, including one that leaves a resize unfinished or aborted','the tests do not count allocations and rarely drop a map in the middle of a resize',
  [RM,AL],[('Drop for HashMap',RM),('drop_entries / drop_table',RM)])
p('P10','Table memory is sized, initialised and indexed within its allocation',
  'Every table allocation is computed without arithmetic overflow from its length, is fully initialised before it is shared and released with the same layout; every access to a slot or its metadata lies within it. A request that cannot be represented panics instead of allocating a smaller table.',
  ['inputs','configurations','histories'],'for every capacity, key and value type and table length','overflow and out-of-bounds conditions need capacities near the address-space limit or specific lengths; a one-byte overrun is silent',
  [AL,PR,RM],[('Table::alloc/layout/meta/entry/dealloc',AL),('Probe masks every index',PR)])
p('P11','Tag bits and markers never collide with real data',
  'The bits used to mark an entry as frozen, copied or carried over are never part of the address of an entry for any key or value type, the deleted marker is never mistaken for an entry, and the metadata byte of a live entry never equals the empty or the deleted marker.',
  ['inputs','configurations'],'for every key and value type (including zero-sized and byte-aligned ones) and every hash value','the tests use word-aligned keys and values and a handful of hash values',
  [RM,TG],[('Entry alignment',RM),('COPYING/COPIED/BORROWED/TOMBSTONE/MASK',RM),('meta::h2',RM)])
p('P12','Everything published to other threads is published with release/acquire ordering',
  'A thread that observes an entry, a table, a resize status or a promoted root that another thread published also observes everything the publisher wrote before publishing it.',
  ['schedules'],'for every weak-memory execution','x86 hides most missing orderings and the tests run on it',
  [RM,AL],[('Release on exchanges and stores, Acquire on loads',RM)])
p('P13','A thread waiting for a resize is always woken',
  'Every change that lets a blocked thread proceed (an entry finished copying, a table promoted, a resize aborted) is followed by a wake-up of the threads blocked on exactly that condition, and a thread never goes to sleep on a condition that was already met when it registered.',
  ['schedules'],'for every interleaving of waiters with the threads that complete, abort or promote a resize','a lost wake-up needs one specific interleaving in a window of a few instructions, and shows as a hang',
  [RM,PK],[('parker.park / unpark pairs',RM),('Parker protocol',PK)])
p('P14','Reads never block, lock or write',
  'Lookups, membership tests, length queries and stepping an iterator never acquire a lock, never wait for another thread, never help or start a resize, and never change the table.',
  ['schedules','histories'],'for every state of the table, including every stage of a resize','a test cannot observe that a read would have blocked under a schedule it did not run',
  [RM,MP,ST],[('get / contains_key / len / Iter::next',RM)])
p('P15','User code and waiting never happen while an internal lock is held',
  'No hash, equality, closure, drop or panic of user code runs, and no thread waits for another thread, while the operation holds one of the internal locks; every internal lock is released on every exit including unwinding.',
  ['schedules','inputs','programs'],'for every key, value, hasher and closure, including ones that panic or call back into the map','re-entrant or panicking user code at the right moment is not in the tests',
  [RM,PK],[('allocating lock scope',RM),('parker lock scopes',PK)])
p('P16','An entry being migrated is never changed in the old table',
  'Once the migration has frozen a slot, no operation changes the entry it holds in the old table except the migration itself to record that it is done; a slot only ever moves along empty, live, deleted and frozen states in the allowed order.',
  ['schedules'],'for every interleaving of writers with the migration','a lost update needs a writer to slip between the freeze and the copy',
  [RM],[('COPYING bit set by fetch_or',RM),('exchange against the exact unfrozen pointer',RM)])
p('P17','A table becomes the root only after every entry was migrated into it',
  'The root is advanced from a table to its successor only when every slot of the old table has been frozen and its live entry, if any, has been stored in the successor; every slot is migrated at most once and none is skipped.',
  ['schedules','configurations','histories'],'for every chunk size, table size and interleaving of helpers','skipping one slot loses one key in one chunk layout; the tests use two chunk sizes',
  [RM],[('claim / copied counters',RM),('try_promote',RM)])
p('P18','Writers continue in the new table only after the key was migrated',
  'A writer that meets a frozen entry for its key, or finds no room, continues in the successor table, and only after the migration of that entry (or of the whole table, when resizes block) is complete.',
  ['schedules'],'for every interleaving of a write with a resize','a write that overtakes the copy of its key is a rare schedule',
  [RM],[('prepare_retry / prepare_retry_insert',RM),('wait_copied / help_copy',RM)])
p('P19','A resize never hides a key from a lookup or a traversal',
  'A lookup or an update concludes that a key is absent only from a slot that was never used on its probe path, or after exhausting the probe path of the last table that can hold the key; a traversal, clear or retain only starts on a table with no unfinished migration.',
  ['schedules','histories'],'for every stage of a resize and every interleaving','a key hidden during one stage of a resize is visible before and after it',
  [RM],[('next_table traversal in get/remove/insert',RM),('linearize',RM)])
p('P20','The length counts exactly the successful insertions minus removals',
  'Every operation that adds a key increments the length once, every operation that takes a key out decrements it once, and replacing, migrating or failing leaves it unchanged; the reported length is the sum over all shards and never negative.',
  ['schedules','histories'],'for every outcome of every operation','the tests check the length after a few sequential histories; retry and race outcomes are not reached',
  [RM,CT],[('count.get(guard).fetch_add/fetch_sub',RM),('Counter::sum',CT)])
p('P21','A key is recognised by equality, never by its hash alone',
  'An operation acts on an entry (returns, replaces, removes or rejects because of it) only if it has compared the entry\'s key with the requested key and found them equal, and every operation visits the slots for a hash in the same order and to the same bound.',
  ['inputs','histories'],'for every set of keys, including ones with equal hashes or equal metadata','colliding metadata and long probe paths are rare in the tests',
  [RM,PR],[('key comparison before acting on a slot',RM),('Probe',PR)])
p('P22','A live slot is always announced with the metadata of its own key',
  'The metadata written for a slot is that of the key stored in it, or the deleted marker once its entry was removed or there is nothing to find; an operation that loses a race for an empty slot leaves metadata that keeps the slot\'s real owner reachable.',
  ['schedules','histories'],'for every race for a slot','wrong metadata hides a key only until something rewrites it',
  [RM],[('meta stores next to slot updates',RM)])
p('P23','Insert-if-absent operations never overwrite',
  'An operation documented to insert only when the key is absent never replaces or removes an existing entry, returns the existing value when there is one, and calls its initialiser at most once and never when the key is present.',
  ['schedules','inputs'],'for every race between such operations and any other','the losing branch is only taken in a race',
  [RM,MP,ST],[('should_replace == false path',RM),('try_insert_with / get_or_insert_with',RM)])
p('P24','Compute and update closures decide on the entry they actually replace',
  'A value produced by an update or compute closure replaces exactly the entry the closure was last called with, a removal removes exactly that entry, an abort changes nothing, and an insertion computed for an absent key is stored only when the key is absent.',
  ['schedules','inputs'],'for every interleaving of concurrent updates to the key','the retry after losing a race is the only place where the two can differ',
  [RM],[('ComputeState cache keyed by the entry pointer',RM),('exchange against the examined entry',RM)])
p('P25','Conditional removal removes only what the predicate approved',
  'A conditional removal or a retain removes an entry only if the predicate was called on that very entry and asked for its removal, and keeps every entry for which it did not.',
  ['schedules','inputs'],'for every interleaving with updates of the same key','an entry swapped between predicate and removal is a race',
  [RM,MP,ST],[('remove_if / retain',RM)])
p('P26','Results describe what the operation did',
  'The value, key or outcome an operation returns is that of the entry it inserted, replaced, removed or found; it reports an insertion exactly when it added the key, a replacement exactly when it displaced an entry, a removal exactly when it took one out, and nothing otherwise.',
  ['schedules','inputs','histories'],'for every path through every public operation','rare paths (retry, race, resize) return through different statements than the tested ones',
  [RM,MP,ST],[('match on the raw results in the public API',MP)])
p('P27','The same operation behaves the same through every front end',
  'The method of a map, of its pinned view, of a set and of its pinned set view that carries the same name performs the same underlying operation with the caller\'s arguments unchanged and with the view\'s own guard.',
  ['inputs','programs'],'for every method of every front end','many of the delegating methods are called by no test',
  [MP,ST],[('HashMapRef delegates to HashMap',MP),('HashSet delegates to the map',ST)])
p('P28','Configuration given at construction is honoured and kept',
  'The hasher, collector, capacity and resize mode given to a constructor or builder are those the collection uses for its whole life; a table never becomes smaller than the initial capacity, a request to reserve is not ignored, and table lengths stay powers of two.',
  ['configurations','inputs','histories'],'for every configuration','the tests build a handful of configurations and do not observe the table length',
  [MP,ST,RM],[('builders',MP),('initial_capacity floor in get_or_alloc_next',RM)])
p('P29','Bulk construction, copying and comparison cover every element',
  'Collecting, extending, cloning, deserialising, serialising, formatting and comparing go through every element of their input exactly once, keep the documented duplicate rule, and compare both length and every element.',
  ['inputs'],'for every input','the tests use a few small inputs',
  [MP,ST,'src/serde_impls.rs'],[('FromIterator/Extend/Clone/PartialEq/serde impls',MP)])
p('P30','Iteration visits each slot of one table once and ends',
  'An iterator visits every slot of the table it was created on at most once and in a fixed order, returns only live entries, and ends after the last slot.',
  ['schedules','histories'],'for every table content and concurrent modification','skipping or repeating a slot shows only for some contents',
  [RM],[('Iter::next',RM)])
p('P31','A panic in user code leaves the collection consistent',
  'If a hash, equality, closure or predicate of the caller panics, no committed change is left half done (uncounted, unretired or unannounced), nothing is freed twice, and no internal lock stays held or poisoned in a way that disables the collection.',
  ['inputs','crash_points'],'for every point at which user code is called','the tests contain no panicking user code',
  [RM],[('user code runs only between committed steps',RM)])
p('P32','The deferred-reclamation list loses and duplicates nothing',
  'Every entry added to a table\'s list of deferred reclamations, by any number of threads at once, is handed out exactly once when the list is drained, and its bookkeeping memory is freed.',
  ['schedules','histories'],'for every interleaving of additions','a lost node needs two additions to race',
  [SK],[('Stack::push / drain',SK)])
p('L01','Operations are linearizable',
  'Every concurrent history of operations on one collection is equivalent to a sequential one that respects real-time order.',
  ['schedules','histories'],'for every concurrent history','needs an argument over all histories',
  [RM],[('the whole protocol',RM)])
p('L02','Every operation terminates once it is not interfered with',
  'An operation that runs without interference completes in a bounded number of steps, whatever the keys hash to.',
  ['schedules','inputs'],'for every input and schedule','termination under colliding hashes depends on run-time hash values',
  [RM],[('resize loop',RM)])
p('L03','Operations keep their documented cost',
  'Lookups and updates take constant expected time and resizes are amortised over the insertions, with the latency profile documented for each resize mode.',
  ['inputs','schedules'],'for every workload','a statement about time',
  ['src/lib.rs',RM],[('resize chunking',RM)])
p('L04','Capacity estimates hold',
  'A collection built with capacity for n elements, or after reserving n more, accepts that many insertions without resizing.',
  ['inputs','configurations'],'for every n and every hash distribution','depends on how the run-time hashes probe',
  [PR,RM],[('entries_for / limit',PR)])
p('L05','Memory use is bounded by the contents',
  'The memory held by a collection, including deferred reclamation, is bounded by a function of its live contents and the number of active guards.',
  ['schedules','histories'],'for every history','depends on run-time guard lifetimes and sizes',
  [RM],[('reclamation and shrinking',RM)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
