#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text can be reviewed in one place)."""
import json, os
P = []
CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': list(files),
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})

p('C01', 'Reads never return a value whose dependencies are out of date',
  'A read (single, bulk or get-or-compute) returns a stored value only if every tag recorded with that entry has, '
  'in the underlying cache at the time of the read, exactly the version recorded with the entry; if any tag has no version or another '
  'version, the entry is reported as absent (the caller\'s default, or left out of the bulk result) while the other entries of a bulk '
  'read are unaffected. Values stored without dependency information are returned as they are.',
  ['inputs', 'histories', 'fault_sequences'],
  'for every entry, every set of tags, every content of the underlying cache at read time, every nesting of composite dependencies',
  'Tests read one or two entries with one or two tags; they cannot cover every subset of stale or evicted tags, nor composites of any shape.',
  [CD + 'cache.py', CD + 'dependencies.py'],
  [('validation before a value is handed out', CD + 'cache.py:CacheWrapper.get, get_many, get_or_set_callback'),
   ('comparison of every recorded tag version', CD + 'dependencies.py:TagsDependency.validate'),
   ('collection of the failures of all parts', CD + 'dependencies.py:CompositeDependency.validate')],
  [('tag versions', 'version of each tag as of the time the entry was stored', CD + 'dependencies.py:TagsDependency.tag_versions')],
  ['values returned by get, get_many, get_or_set_callback'])

p('C02', 'A stored entry carries the current version of every tag it depends on',
  'Every entry written by set carries, for each tag given by the caller and each tag inherited from entries nested in it, the version '
  'that this tag has in the underlying cache when the entry is stored. A tag that has no version yet gets a newly generated one, and that '
  'version is written to the underlying cache under the very key and cache version that later reads and invalidations use, before the entry is.',
  ['inputs', 'histories', 'schedules'],
  'for every set of own and inherited tags, every subset of them already having a version, every cache version',
  'Tests store entries with one or two fresh or existing tags; mixed and inherited sets and the order of the two writes are not covered.',
  [CD + 'cache.py', CD + 'dependencies.py', CD + 'utils.py'],
  [('combination of own and inherited dependencies', CD + 'cache.py:CacheWrapper.set'),
   ('evaluation before packing', CD + 'dependencies.py:TagsDependency.evaluate, CompositeDependency.evaluate'),
   ('creation of missing versions', CD + 'dependencies.py:TagsDependency._make_tag_versions')],
  [('packed entry', 'value together with its evaluated dependency', CD + 'cache.py:CacheWrapper._pack_data')],
  ['the data passed to the set of the underlying cache'])

p('C03', 'Nothing is stored while any of its tags is locked',
  'If any tag of an entry, own or inherited, is locked by another transaction at the time of set, the entry is not written to the underlying cache, '
  'no version is created for the tags of the locked dependency, and set completes without an error. If none is locked the entry is written exactly once. A failure of the underlying cache is not taken for a lock: it reaches the caller.',
  ['schedules', 'histories', 'inputs'],
  'for every set of tags, every subset of them locked, every shape of composite dependency',
  'Tests lock one tag of a small set; every subset and every nesting of composites is out of their reach.',
  [CD + 'cache.py', CD + 'dependencies.py', CD + 'exceptions.py'],
  [('lock check before anything is stored', CD + 'dependencies.py:TagsDependency.evaluate'),
   ('no part may hide the lock of another', CD + 'dependencies.py:CompositeDependency.evaluate'),
   ('skip of the write', CD + 'cache.py:CacheWrapper.set')], (),
  ['writes to the underlying cache made by set'])

p('C04', 'An enclosing entry inherits the dependencies of everything nested in it',
  'When an entry is read successfully or stored (also when the store is skipped because of a lock) while other entries are being generated, its dependencies are added, '
  'under the same cache version, to every enclosing entry up to the outermost one. When an enclosing entry is stored, all dependencies inherited under that cache version are stored with it. (Reads that opted out of tracking pass nothing on.)',
  ['histories', 'inputs'],
  'for every depth and order of nesting, every mixture of hits, bulk hits and stores, every cache version',
  'Tests nest two or three levels with plain set; depth, bulk hits, locked stores and versions are unbounded.',
  [CD + 'cache.py', CD + 'relations.py'],
  [('hand-over at hit and at store', CD + 'cache.py:CacheWrapper.finish and its callers'),
   ('propagation to all ancestors', CD + 'relations.py:CacheNode.add_dependency'),
   ('separation by cache version', CD + 'relations.py:CacheNode.get_dependency')],
  [('cache node', 'entry under construction with the dependencies collected for it', CD + 'relations.py:CacheNode')],
  ['dependencies of the enclosing entry when it is stored'])

p('C05', 'Tracking of nested entries follows the nesting of their generation',
  'A missed read makes the entry the innermost one under generation, except that a bulk read leaves the innermost entry as it was and that reads which opted out (per call, or for the whole cache) '
  'start nothing; storing, hitting or aborting an entry ends its tracking and, if it was innermost, makes its parent innermost again, aborting passes no dependencies on, and closing the cache ends all of it. '
  'A read that fails in the underlying cache, a get-or-compute whose computation fails, or a template fragment whose rendering fails leaves no entry under generation and lets the error through.',
  ['histories', 'fault_sequences'],
  'for every sequence of reads, stores, aborts and failures',
  'The tracking state after a history is a function of the whole history; tests run a handful of short ones.',
  [CD + 'cache.py', CD + 'relations.py', CD + 'tagging.py', DJ + 'templatetags/cache_tagging_tags.py'],
  [('begin, finish, abort and close', CD + 'cache.py:CacheWrapper'),
   ('current node and its restoration', CD + 'relations.py:RelationManager')],
  [('current node', 'innermost entry under generation in this thread', CD + 'relations.py:RelationManager._current')],
  ['the current node of the relation manager'])

p('C06', 'An invalidation reaches every tag and is announced before it takes effect',
  'Invalidating a dependency deletes, in the underlying cache and under the caller\'s cache version, the version of every one of its tags, whatever the number and kind of its parts, immediately and not only at the end of the transaction. '
  'Before anything is deleted the dependency has been handed to the current transaction, so that the lock and the repetition at the end of the transaction cannot be missed.',
  ['inputs', 'histories', 'fault_sequences'],
  'for every set of tags, every composite, every cache version, inside and outside of transactions',
  'Tests invalidate one or two tags; completeness over all tags and all parts and the order of announcement and deletion are universal claims.',
  [CD + 'cache.py', CD + 'dependencies.py', CD + 'tagging.py'],
  [('announcement, then deletion', CD + 'cache.py:CacheWrapper.invalidate_dependency'),
   ('deletion of all versions', CD + 'dependencies.py:TagsDependency.invalidate, CompositeDependency.invalidate'),
   ('building of the dependency from tags', CD + 'tagging.py:CacheTagging.invalidate_tags')], (),
  ['delete calls of the underlying cache'])

p('C07', 'Everything invalidated in a transaction is released when the outermost one ends',
  'Every dependency invalidated inside a transaction, at whatever nesting level and under whatever cache version, is locked when it is invalidated and released exactly once by the end of the outermost transaction, with all its tags and the same cache version; the end of a nested one releases nothing. '
  'The end time of the transaction is taken before the first release, and nested transactions report the start and end time of the outermost one.',
  ['histories', 'schedules'],
  'for every nesting depth, every sequence of invalidations, every set of cache versions',
  'Tests use one nested level and one or two tags.',
  [CD + 'transaction.py', CD + 'cache.py'],
  [('recording by cache version', CD + 'transaction.py:Transaction.add_dependency, SavePoint.add_dependency'),
   ('release at the end', CD + 'transaction.py:Transaction.finish, SavePoint.finish'),
   ('nesting', CD + 'transaction.py:TransactionManager.begin, finish, flush')],
  [('recorded dependencies', 'what has to be released at the end, by cache version', CD + 'transaction.py:Transaction._dependencies')],
  ['calls of the dependency lock'])

p('C08', 'The isolation level decides how concurrent stores are held off',
  'Under READ UNCOMMITTED and READ COMMITTED tags are never locked; the end of the transaction invalidates the tags again: under READ COMMITTED at once and, if a delay is configured, once more after the delay, under READ UNCOMMITTED once, after the delay if there is one. '
  'Under REPEATABLE READ and SERIALIZABLE tags are locked when invalidated, and at the end of the transaction are marked as released with the configured delay and then invalidated again; an unknown level is refused.',
  ['configurations', 'histories'],
  'for every isolation level and every delay',
  'Tests check each level with one mock dependency; the whole protocol per level, including what must not happen, is a claim about all paths.',
  [CD + 'locks.py', DJ + '__init__.py'],
  [('choice of the protocol', CD + 'locks.py:DependencyLock.make'),
   ('protocol of each level', CD + 'locks.py'),
   ('options of the cache alias', DJ + '__init__.py:CacheCollection.__call__')], (),
  ['calls on the dependency made by the lock'])

p('C09', 'A tag is locked exactly for the transactions that could store stale data',
  'A tag acquired by another session is locked, and a tag released by another session is locked for every transaction that started no later than the release plus its delay; a session is never blocked by its own marks, and a tag without marks is not locked. '
  'When both marks exist the release counts only if it was made by the acquiring session and later than the acquisition; otherwise the acquisition counts.',
  ['schedules', 'inputs'],
  'for every combination of marks, sessions and order of the times involved (a finite set of orderings), and every tag of the dependency',
  'Tests try a few orderings for single tags; boundary cases (equal times) and combinations of foreign marks are not enumerated.',
  [CD + 'dependencies.py', CD + 'transaction.py'],
  [('decision per tag', CD + 'dependencies.py:TagsDependency._get_locked_tags_callback'),
   ('decision per mark', CD + 'dependencies.py:AcquiredTagState.is_locked, ReleasedTagState.is_locked, is_released')],
  [('marks', 'acquired and released marks of a tag in the underlying cache', CD + 'dependencies.py:AcquiredTagState, ReleasedTagState')],
  ['the set of tags reported as locked'])

p('C10', 'Lock marks are written for every tag and outlive what they protect',
  'Acquiring (releasing) a dependency writes for every one of its tags, under the caller\'s cache version, a mark with the session and the start (end) time of the transaction, and for a release the delay; the two kinds of mark use different keys, '
  'which are the keys the lock check reads. A release mark lives strictly longer than an acquire mark and strictly longer than its delay, and neither is stored without expiry.',
  ['inputs', 'configurations', 'schedules'],
  'for every set of tags, every delay (zero included), every cache version',
  'Tests look at one tag and never at the lifetime passed to the underlying cache.',
  [CD + 'dependencies.py'],
  [('writing of marks', CD + 'dependencies.py:TagsDependency.acquire, TagsDependency.release'),
   ('contents of marks', CD + 'dependencies.py:AcquiredTagState, ReleasedTagState'),
   ('delegation to all parts', CD + 'dependencies.py:CompositeDependency.acquire, release')], (),
  ['set_many of the underlying cache'])

p('C11', 'Merged lookups give each requester exactly its own results',
  'When deferred lookups are merged, each requester\'s callback is run exactly once, last added first, with the entries of exactly its own keys that were found; lookups of the same kind share one query over the union of all their keys, '
  'lookups of different kinds are never mixed, and merging leaves the merged-in operand as it was. When nothing is left, asking for another result ends the iteration instead of inventing one.',
  ['inputs', 'histories'],
  'for every number, order and kind of merged lookups and every overlap of their keys',
  'Tests merge two or three lookups of one shape.',
  [CD + 'defer.py', CD + 'utils.py'],
  [('merging', CD + 'defer.py:Deferred.__iadd__'),
   ('distribution of results', CD + 'defer.py:GetManyDeferredIterator, NoneDeferredIterator'),
   ('criterion of kind', CD + 'defer.py:DeferredNode.aggregation_criterion, cache_dependencies/utils.py:to_hashable')],
  [('queue', 'callbacks waiting for the result', CD + 'defer.py:DeferredNode.queue')],
  ['arguments of the callbacks and of the executor'])

p('C12', 'Per-thread state is never used from another thread',
  'Every public operation of the transaction manager and of the relation manager handed out by the framework fails with an error, before it has any effect, when called from a thread other than the one that created it. '
  'The registry of caches is per thread, gives one thread the same object for the same alias, the default-cache object always refers to the cache of the calling thread, and delayed or deferred work looks up the cache in the thread that executes it.',
  ['schedules'],
  'for every operation and every pair of creating and calling thread',
  'Tests call a few operations from one foreign thread.',
  [CD + 'mixins.py', CD + 'relations.py', CD + 'transaction.py', DJ + '__init__.py', CD + 'locks.py'],
  [('check of the thread', CD + 'mixins.py:ThreadSafeDecoratorMixIn'),
   ('guarded operations', CD + 'relations.py:ThreadSafeRelationManagerDecorator, cache_dependencies/transaction.py:ThreadSafeTransactionManagerDecorator'),
   ('registry', DJ + '__init__.py:CacheCollection'),
   ('accessor of the lock', CD + 'locks.py:DependencyLock')], (),
  ['RuntimeError of guarded operations; identity of objects in the registry'])

p('C13', 'Session ids and tag versions are unique',
  'Two threads, processes or hosts that are alive at the same time never have the same session id, also after a fork, and within a thread the id is stable. '
  'Every newly generated tag version depends on fresh randomness from the full range, on the session and on the time, and each tag gets its own.',
  ['schedules', 'histories'],
  'for every set of concurrently running threads, processes and hosts',
  'Uniqueness over all executions cannot be sampled; tests only check that two consecutive values differ.',
  [CD + 'utils.py', CD + 'transaction.py', CD + 'dependencies.py'],
  [('session id', CD + 'utils.py:get_thread_id'), ('tag version', CD + 'utils.py:generate_tag_version'),
   ('one version per tag', CD + 'dependencies.py:TagsDependency._make_tag_versions')], (),
  ['values returned'])

p('C14', 'Keys of tags are stable, distinct, and the same for writers and readers',
  'The cache key of a tag is a deterministic function of the complete tag name and of the library version alone, with a fixed-length, backend-safe form, and different names give different keys (up to collisions of the digest). '
  'All operations on a tag - reading, creating, invalidating, acquiring, releasing, lock check - derive keys from the tag in the same way, and version keys, acquire keys and release keys never coincide.',
  ['inputs'],
  'for every tag name (any type, any characters) and every operation',
  'Tests use short ASCII names and check operations one at a time.',
  [CD + 'utils.py', CD + 'dependencies.py'],
  [('key derivation', CD + 'utils.py:make_tag_key'), ('mark keys', CD + 'dependencies.py:AcquiredTagState.make_key, ReleasedTagState.make_key')], (),
  ['keys passed to the underlying cache'])

p('C15', "The caller's cache version reaches every operation on the underlying cache",
  'Every read, write and delete that an operation makes on the underlying cache for values, tag versions or lock marks, and every dependency it passes to tracking or to the transaction, is made under the cache version given to that operation (including none given); versions are never mixed, dropped or replaced.',
  ['inputs', 'histories'],
  'for every operation and every cache version, including 0 and none',
  'Most tests use the default version only.',
  [CD + 'cache.py', CD + 'dependencies.py', CD + 'tagging.py', CD + 'locks.py', CD + 'transaction.py', CD + 'relations.py'],
  [('passing of the version', CD + 'cache.py, dependencies.py, tagging.py, locks.py, transaction.py, relations.py')], (),
  ['version argument of every call on the underlying cache'])

p('C16', "Combining dependencies never changes the caller's objects",
  'Adding a dependency to another one, to an enclosing entry or to a transaction keeps all tags and recorded versions of both, never drops a part it cannot merge, and never changes or shares mutable state with the dependency added; '
  'a copy of a dependency is independent of the original. Storing a value does not change the dependency object given by the caller, so that one object can be used for many entries.',
  ['histories', 'inputs'],
  'for every kind and shape of dependency and every later use of the objects involved',
  'Aliasing shows only after a second use of the same object; tests mostly use each object once.',
  [CD + 'dependencies.py', CD + 'cache.py', CD + 'relations.py', CD + 'transaction.py'],
  [('merging', CD + 'dependencies.py:CompositeDependency.extend, TagsDependency.extend, DummyDependency.extend'),
   ('copying', CD + 'dependencies.py:__copy__ of all dependencies')], (),
  ['tags and versions of the objects after the operation'])

p('C17', 'The page cache keeps only shareable responses, with all their tags',
  'A response is put into the page cache only if the request was a GET or HEAD request that missed and caching was not prevented, the status is 200, it is not streaming, its lifetime is not zero, it does not set cookies for a cookie-less request while varying on cookies, and, in anonymous-only mode, the user is not authenticated. '
  'The page and the header list it is found by are stored with all tags of the view and all tags collected while rendering, with the lifetime given by max-age or else the configured one, and are looked up under the same prefix and in the same cache; a kept page answers only requests for the same address whose headers that the page varies on have the same values. '
  'Nothing is added to the response by which clients or proxies would keep the page beyond an invalidation.',
  ['inputs', 'histories', 'configurations'],
  'for every request, response and configuration',
  'Tests request a few pages; the conditions form a product that tests do not enumerate.',
  [DJ + 'middleware.py', DJ + 'utils.py', DJ + 'decorators.py'],
  [('decision', DJ + 'middleware.py:UpdateCacheMiddleware.process_response'),
   ('learning of the header list', DJ + 'utils.py:learn_cache_key'),
   ('lookup', DJ + 'middleware.py:FetchFromCacheMiddleware.process_request')],
  [('update flag', 'whether the response may be stored', 'attribute _cache_update_cache of the request')],
  ['set calls made by the middleware'])

p('C18', 'A cached template fragment carries all its tags and respects prevention',
  'A fragment that was not found is rendered and stored under its name with its lifetime and with the tags given as arguments, those given as a list, and those added while rendering, whatever the nesting of fragments and scopes; an invalid lifetime is refused as a template error. '
  'If caching was prevented anywhere inside a fragment, neither it nor any enclosing fragment nor the page is stored, while fragments that are merely nested inside or beside are stored as usual, and no entry stays under generation; a found fragment is returned without rendering. (Parts rendered in an isolated template context of their own are outside of this.)',
  ['inputs', 'programs', 'histories'],
  'for every template: nesting of fragments, scopes and prevention',
  'Tests render a few templates.',
  [DJ + 'templatetags/cache_tagging_tags.py', DJ + 'utils.py'],
  [('rendering of a fragment', DJ + 'templatetags/cache_tagging_tags.py:CacheNode.render'),
   ('adding of tags', DJ + 'templatetags/cache_tagging_tags.py:CacheAddTagsNode.render'),
   ('prevention', DJ + 'templatetags/cache_tagging_tags.py:cache_tagging_prevent, django_cache_dependencies/utils.py:prevent_cache_page')], (),
  ['set and abort calls made by the tag'])

p('C19', 'Uncached blocks run at every rendering, and only with the secret',
  'What is stored for a fragment contains its uncached blocks unexpanded; they are expanded after the store on every rendering, hit or miss, when the fragment asks for it, and their output is not stored. '
  'Only blocks marked with the secret of the installation are executed, each with its own data and the data given by the caller and nothing of other blocks; text outside of them is passed through unchanged, and blocks produced by a block are expanded as well. The second pass of django-phased, where installed and asked for, follows the store in the same way.',
  ['inputs', 'programs'],
  'for every text with any number and nesting of blocks, with and without the secret',
  'Tests expand two or three sample texts.',
  [CD + 'nocache.py', DJ + '__init__.py', DJ + 'templatetags/cache_tagging_tags.py'],
  [('expansion', CD + 'nocache.py:NoCache.handle'), ('secret', DJ + '__init__.py:nocache'),
   ('order of store and expansion', DJ + 'templatetags/cache_tagging_tags.py:CacheNode.render')], (),
  ['stored data, executed blocks and output'])

p('C20', 'Saving or deleting a registered object invalidates its tags',
  'For every registered model, every save of an object, once it is saved, and every deletion invalidate all tags that the registered function gives for that object, whether a single tag or a collection and whether the function takes the arguments of the signal or only the object, in the cache given at registration or else in the default one; '
  'every registration in a list is connected, none replaces another, and the handlers stay connected. Discovery at start imports the module for registrations of every installed application that has one, and passes over the others.',
  ['inputs', 'histories', 'configurations'],
  'for every list of registrations and every saved or deleted object',
  'Tests register two models.',
  [DJ + '__init__.py'],
  [('connection of signals', DJ + '__init__.py:CacheRegistry.register'), ('handler', DJ + '__init__.py:_clear_cached'), ('discovery', DJ + '__init__.py:autodiscover')], (),
  ['signal connections and invalidations'])

p('C21', 'Transaction scopes are closed on every way out',
  'A transaction scope opened by a context manager, by a decorator or by the middleware is ended on every way out of the scope: normal return, exception (which is passed on) and response; the scope of a single block ends exactly one level, while the scope of a request and closing the cache end all of them. A scope is over also when the cache fails at its end, and then the other caches of the thread are closed nevertheless. '
  'A decorated function keeps its arguments, its result and its name, every form of decorator gives a callable, and a function decorated with the transaction of the default cache can be called by any thread, in whose cache the scope is then opened.',
  ['fault_sequences', 'histories'],
  'for every way out of the scope and every nesting of scopes',
  'Tests leave scopes normally, rarely by an exception.',
  [CD + 'transaction.py', CD + 'cache.py', DJ + 'decorators.py', DJ + 'middleware.py', DJ + '__init__.py'],
  [('context manager and decorator', CD + 'transaction.py:AbstractTransactionManager'),
   ('legacy decorators', DJ + 'decorators.py:cache_transaction, cache_transaction_all'),
   ('request scope', DJ + 'middleware.py:TransactionMiddleware'),
   ('end of request', DJ + '__init__.py:close_caches, cache_dependencies/cache.py:CacheWrapper.close')], (),
  ['begin, finish and flush calls'])

p('C22', 'All call forms of the public interface mean the same',
  'Tags given one by one, as one collection of any kind, or as a ready dependency object mean the same set of tags, in stores as well as in invalidations; a store called in the native form of the underlying cache is a store without tags with that lifetime and version, and what is not given to an operation (lifetime, version) is not given to the underlying cache either. '
  'The legacy names and the default-cache object act on the same cache as the modern ones with the same arguments, the five call forms of the page decorator configure the same middleware, and operations that are not overridden reach the underlying cache.',
  ['inputs', 'programs'],
  'for every call form and every combination of arguments',
  'Tests call one form of each.',
  [CD + 'tagging.py', CD + 'dependencies.py', DJ + '__init__.py', DJ + 'decorators.py', CD + 'cache.py'],
  [('argument forms', CD + 'tagging.py:CacheTagging.set, invalidate_tags, cache_dependencies/dependencies.py:TagsDependency.__init__'),
   ('default cache', DJ + '__init__.py:DefaultCacheProxy'), ('page decorator', DJ + 'decorators.py:cache_page')], (),
  ['calls that reach the wrapped cache'])

p('C23', 'Derived operations of the cache adapter agree with its basic ones',
  'For a cache built on the adapter base class, bulk reads, bulk writes and bulk deletes act on each given key exactly as the single operation with the same lifetime and version does (absent keys are left out), membership is the presence of a value, and counting and changing of the version '
  'read and write the same key and version, refuse absent keys, and return the new number. Changing the version of a key stores it under the new version before it is deleted under the old one, and checking a key only warns.',
  ['inputs', 'programs'],
  'for every concrete adapter, key, value, delta and version',
  'The base class has no tests of its own.',
  [CD + 'cache.py'],
  [('derived operations', CD + 'cache.py:AbstractCache')], (),
  ['calls of the basic operations'])

p('C24', 'The file backend publishes an entry completely or not at all',
  'The file backend writes a new entry completely to a private temporary file in the same directory and only then puts it in place in one step, so that a reader or a crash at any point sees the old entry, the new one, or none, never a part; without failures an entry that is replaced is there all the time. '
  'The file that is written is the one that the reader of the same key and version opens, in the form it expects (expiry, then compressed value); failures of the file system do not reach the caller, and of two concurrent stores at least one is there afterwards.',
  ['crash_points', 'schedules', 'fault_sequences'],
  'for every crash point, concurrent reader and file system failure',
  'The backend has no tests; crash points cannot be sampled by them.',
  [DJ + 'backends.py'],
  [('writing', DJ + 'backends.py:FileBasedCache.set')], (),
  ['file system calls'])

p('C25', 'No stale read under any interleaving of database and cache operations',
  'No interleaving of concurrent transactions, cache readers and master/slave replication makes a read return a value that was generated from data older than the last committed invalidation of one of its tags.',
  ['schedules', 'histories'],
  'for every interleaving and timing of database and cache operations of all processes',
  'Needs all interleavings with an external database.',
  [CD + 'dependencies.py', CD + 'locks.py', CD + 'transaction.py'],
  [('the whole protocol', CD + 'locks.py, dependencies.py')], (), ['values read'])

p('C26', 'Lock marks outlive the transactions they protect',
  'An acquire mark stays in the underlying cache as long as the transaction that wrote it runs.',
  ['schedules', 'histories'],
  'for every duration of a transaction',
  'Depends on the running time of transactions and on evictions of the backend.',
  [CD + 'dependencies.py'], [('fixed lifetime of marks', CD + 'dependencies.py:TagsDependency.TAG_STATE_TIMEOUT')], (), ['marks'])

p('C27', 'Get-or-compute calls the function on a miss only, once, and keeps its result',
  'A get-or-compute whose entry a read would return gives the stored value, without calling the function and without writing anything, also when that value is empty (but not None). Otherwise it calls the function exactly once with exactly the positional and keyword arguments given, '
  'returns what the function has returned, and, unless a lock forbids it, stores that under the key, tags, lifetime and cache version given, so that the next one finds it. If the function fails, its error reaches the caller and nothing is stored.',
  ['inputs', 'histories', 'fault_sequences'],
  'for every state of the entry, every function and its arguments, every tags, lifetime and cache version, inside and outside of transactions and other computations',
  'Tests compute two or three values; the product of prior states, argument forms, empty results and places is not enumerated.',
  [CD + 'tagging.py', CD + 'cache.py'],
  [('computation', CD + 'tagging.py:CacheTagging.get_or_set_callback, cache.py:CacheWrapper.get_or_set_callback')], (),
  ['calls of the function, result, writes to the underlying cache'])

p('C28', 'What was stored is read back unchanged until it is replaced or invalidated',
  'After a value of any shape was stored, with or without tags, every read of its key under its cache version (single, bulk or get-or-compute) returns exactly that value, as long as it is not deleted or replaced and no tag of it is invalidated or evicted: stores, deletions, invalidations and failures for other keys, tags or cache versions do not change that, '
  'an empty value is not taken for an absent one, values that look like the records of the library are kept as they are, values that were put into the underlying cache by other means are read as they are, and every key of a bulk read gets its own value. A replacement is what is read afterwards; a key that was never stored or was deleted is absent.',
  ['inputs', 'histories'],
  'for every value, every way of storing and reading, every sequence of other operations',
  'Tests store a few strings and read them once.',
  [CD + 'cache.py', CD + 'tagging.py'],
  [('packing of value and dependency', CD + 'cache.py:CacheWrapper._pack_data, _unpack_data, _is_packed_data'),
   ('reads', CD + 'cache.py:CacheWrapper.get, get_many')],
  [('packed entry', 'value together with its evaluated dependency', CD + 'cache.py:CacheWrapper._pack_data')],
  ['values returned by reads'])

p('C29', 'Every operation touches only the keys it is responsible for',
  'In the underlying cache, reads write and delete nothing, and look up only the keys asked for and the versions of tags of these entries. A store looks up nothing but versions and lock marks of its own and inherited tags, writes, once each, the entry and versions for those of its tags that have none, never replaces an existing version and deletes nothing; a store held off by a lock writes nothing for the locked tags. '
  'An invalidation, the end of a transaction and its delayed repetition delete only versions of the tags invalidated and write only lock marks of them. Beginning or ending the generation of entries and scopes without invalidations touch nothing. Everything happens under the cache version given.',
  ['inputs', 'histories', 'configurations'],
  'for every operation in every state, under every isolation level',
  'Tests look at results; effects on keys they do not look at escape them.',
  [CD + 'cache.py', CD + 'dependencies.py', CD + 'locks.py', CD + 'transaction.py'],
  [('lookups, creation and deletion of versions', CD + 'dependencies.py:TagsDependency'), ('marks', CD + 'dependencies.py:TagsDependency.acquire, release')], (),
  ['all operations on the underlying cache'])

p('C30', 'The number of queries does not grow with the number of tags or entries',
  'A read, a bulk read (of valid, stale or absent entries), a store (also of an entry that encloses others), an invalidation and the end of a transaction make a number of queries to the underlying cache that does not depend on the number of keys, of tags - own, inherited or invalidated one after the other - or of entries under generation: '
  'tags are looked up, created, deleted and marked in bulk, a store looks up the versions and marks of all its tags, own and inherited, in one query, and a read or bulk read makes one more query for the tags of all its entries. (Dependencies of kinds unknown to the library, different cache versions and the nesting of transactions are outside of this.)',
  ['inputs', 'histories'],
  'for every number of tags and entries',
  'Tests do not count queries, and their results do not depend on them.',
  [CD + 'dependencies.py', CD + 'defer.py', CD + 'cache.py'],
  [('aggregation of lookups', CD + 'defer.py:GetManyDeferredIterator'), ('merging of dependencies', CD + 'dependencies.py:CompositeDependency.extend, TagsDependency.extend')], (),
  ['calls of the underlying cache'])

p('C31', 'A failing cache is reported, and everything works afterwards',
  'If an operation of the underlying cache fails at any point of a read, get-or-compute, store, invalidation or end of a transaction, that very error reaches the caller; the same entries are under generation and the same scopes are open as if the operation had been over, '
  'and afterwards stores, reads, nesting, invalidations and transactions work as before the failure. An invalidation whose deletion has failed inside of a transaction is repeated at its end.',
  ['fault_sequences', 'histories'],
  'for every operation, every point of failure and every kind of error',
  'Tests have no failing cache.',
  [CD + 'cache.py', CD + 'transaction.py', CD + 'dependencies.py'],
  [('ending of tracking on errors', CD + 'cache.py:CacheWrapper.get, get_many, set'), ('ending of scopes', CD + 'transaction.py:TransactionManager.finish, flush')], (),
  ['errors, entries under generation, open scopes, later operations'])

p('C32', 'Caches are independent of each other',
  'Two caches of one thread, different aliases included, share nothing: what is stored, invalidated, generated, opted out, begun, ended or closed in one of them changes neither the contents, nor the entries under generation and their dependencies, nor the open scopes and what they release, nor the isolation level of the other. (Two aliases over the same cache of Django share its contents, and nothing else.)',
  ['histories', 'configurations'],
  'for every sequence of operations on several caches',
  'Tests use one cache at a time.',
  [CD + 'cache.py', CD + 'relations.py', CD + 'transaction.py', DJ + '__init__.py'],
  [('state per cache', CD + 'relations.py:RelationManager, transaction.py:TransactionManager'), ('construction', DJ + '__init__.py:CacheCollection.__call__')], (),
  ['effects on the other cache'])

p('C33', 'Failures of checks and of locks name exactly what has failed',
  'The error with which the check of a dependency ends (DependencyInvalid) names, whenever it is asked, exactly the tags of which the version has changed or is gone, and the dependency they belong to; the error of taking up versions under locks (DependencyLocked) names exactly the tags that other sessions hold. '
  'A composite dependency fails if any of its parts fails; its error gives one error for each part that has failed, each naming its part, and together they name exactly what has failed, over any depth. Nothing fails without a reason.',
  ['inputs', 'histories'],
  'for every combination of tags, parts and what has happened to them',
  'Tests look at one outdated tag at a time, and at the class of the error only.',
  [CD + 'exceptions.py', CD + 'dependencies.py'],
  [('errors of checks', CD + 'dependencies.py:TagsDependency.validate, CompositeDependency.validate'), ('errors of locks', CD + 'dependencies.py:TagsDependency.evaluate, CompositeDependency.evaluate')],
  [('accessors', 'what an error names', CD + 'exceptions.py:CompositeDependencyInvalid, CompositeDependencyLocked')],
  ['errors of validate() and evaluate()'])

p('C34', 'Work that is over leaves nothing behind in memory',
  'Hits, stores (also those held off by locks), aborted and failed generations, get-or-compute, reads that opt out, invalidations, transactions ended in any way, failures of the cache, requests, renderings, saved objects and threads that have ended leave no reachable objects behind: '
  'the memory the library holds in a process does not grow with the number of keys, tags, requests or threads it has seen. What is begun and not ended (entries not found and never stored, open transactions) is given up when the cache is closed.',
  ['histories', 'fault_sequences'],
  'for every kind of work, in every order, under every isolation level, in any number',
  'Leaks show only in processes that live long; tests live for seconds.',
  [CD + 'cache.py', CD + 'relations.py', CD + 'transaction.py', DJ + '__init__.py', DJ + 'middleware.py', DJ + 'templatetags/cache_tagging_tags.py'],
  [('entries under generation', CD + 'relations.py:RelationManager'), ('scopes', CD + 'transaction.py:TransactionManager'), ('caches per thread', DJ + '__init__.py:CacheCollection')], (),
  ['memory reachable from modules and caches'])

p('C35', 'Objects shared by threads are not modified by use',
  'What serves several threads at the same time - modules, middleware, decorated views, compiled templates, signal handlers, the handler of uncached blocks, the proxies of the default cache - is not modified by the requests, renderings, signals and operations it serves, '
  'neither during them nor afterwards; what belongs to a request or a thread lives in the request, in locals, or in storage of the thread.',
  ['schedules', 'inputs', 'histories'],
  'for every operation and every point in it at which another thread may run',
  'Tests use one thread and one request at a time.',
  [DJ + 'middleware.py', DJ + 'templatetags/cache_tagging_tags.py', DJ + '__init__.py', CD + 'nocache.py', CD + 'utils.py'],
  [('middleware', DJ + 'middleware.py:UpdateCacheMiddleware, FetchFromCacheMiddleware, TransactionMiddleware'), ('template nodes', DJ + 'templatetags/cache_tagging_tags.py:CacheNode, CacheAddTagsNode')], (),
  ['state of shared objects'])

p('C36', 'Only plain data is stored',
  'What is written to the underlying cache - entries, versions, marks - consists of the value, the dependency with its tags and versions, and the facts of a mark: no functions, iterators, locks, errors, caches, transactions or other live objects of the process are reachable from it, '
  'even if a dependency has been stored, checked, held off or invalidated before. So any cache that keeps pickled copies can keep it.',
  ['inputs', 'histories'],
  'for every operation and every history of a dependency object',
  'Tests store to a cache in memory, with dependencies made for the purpose.',
  [CD + 'dependencies.py', CD + 'cache.py', CD + 'defer.py'],
  [('stored entry', CD + 'cache.py:CacheWrapper._pack_data'), ('marks', CD + 'dependencies.py:AcquiredTagState, ReleasedTagState')],
  [('dependency', 'tags and their versions', CD + 'dependencies.py:TagsDependency')],
  ['values written to the underlying cache'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
