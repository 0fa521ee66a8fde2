// Single source of the property list: `node src/gen.mjs` writes properties.jsonl and MANIFEST.json from it.
// P(id, title, statement, over, quantText, whyTestsCant, files, mechanism[[name, where]], observe_at[])
export const props = [];
const P = (id, title, statement, over, text, why, files, mech, observe_at) => props.push({
  id, title, statement, quantifier: { over: [].concat(over), text }, why_tests_cant: why,
  anchors: { files, mechanism: mech.map(([name, where]) => ({ name, where })), observe_at, hook_needed: null },
});
const pk = (p, ...fs) => fs.map(f => `packages/${p}/src/${f}`);

/* ---------------------------------------------------------------- function: scheduling ---- */
P('F01', 'parallel: concurrency bound, exactly-once start, ordered complete results',
  'For any task list (functions, promises or plain values), any positive concurrency and any completion order, parallel never has more than concurrency tasks in flight, never leaves a slot idle while tasks are still waiting, starts every task exactly once in list order (onStart immediately before each start), and resolves with a result array of the same length whose i-th entry is the i-th task\'s value. onData is called exactly once per task, after it completed, with that task\'s index and value.',
  ['schedules', 'inputs'], 'every task list, concurrency >= 1 (or default), and every order in which the in-flight tasks settle',
  'The tests use a few fixed timer delays; they sample one completion order each and never observe the in-flight count or slot idleness.',
  pk('function', 'control/parallel.ts', 'catch/retry.ts', 'promise/toPromise.ts'),
  [['shared index taken by worker loops', 'parallel.ts: worker()'], ['worker count = min(concurrency, tasks)', 'parallel.ts: Promise.all(Array.from(...))']],
  ['task start/settle events, onStart/onData callbacks, resolved value']);
P('F02', 'parallel: per-task retry budget, onError fallback and failure reporting',
  'In parallel, a task that keeps failing is executed exactly maxRetry + 1 times and one that succeeds on the k-th try exactly k times, whatever the other tasks do. With onError, it is called exactly once per exhausted task with that task\'s index and its non-undefined return value becomes that task\'s result (undefined otherwise) while all other results stay intact; without onError, parallel rejects with an AggregateError that carries all maxRetry + 1 errors of the exhausted task and whose cause.index is that task\'s index. onRetry is called with the task\'s index, the error and the 1-based retry number once per failed retry, and returning true stops that task\'s retries. That includes errors whose message cannot be changed.',
  ['fault_sequences', 'schedules'], 'every assignment of failures to (task, attempt) pairs, every completion order, every maxRetry and callback combination',
  'Tests exercise one failing task at a time with a fixed delay; the combination of concurrent failures, retries and callbacks is unbounded.',
  pk('function', 'control/parallel.ts', 'catch/retry.ts'),
  [['retry per task with index-bound callbacks', 'parallel.ts: worker()'], ['attempt counter', 'retry.ts: while loop']],
  ['task attempts, onError/onRetry calls, rejection value']);
P('F03', 'retry: attempt budget, stop rule, fallback value, error aggregation and waits',
  'retry executes the task until the first success and at most maxRetry + 1 times, returning the first successful value; between two attempts it waits exactly the configured retryWait (a number of milliseconds, or an integer within the configured start..end range). onRetry is called after each failed retry (not after the first failure) with the error and the 1-based retry number, and returning true ends the attempts at once. When attempts are exhausted or stopped, the result is the non-undefined value of onError (called exactly once with the last error) or undefined; with no onError and no stop, an AggregateError listing every attempt\'s error in order is thrown.',
  ['fault_sequences', 'inputs'], 'every pattern of attempt outcomes (sync throw, rejection, success), maxRetry, wait configuration and callback behaviour',
  'Tests check a handful of failure counts and never the exact waits, callback ordering or error list for arbitrary outcome patterns.',
  pk('function', 'catch/retry.ts', 'delay/delay.ts'),
  [['attempt loop and error list', 'retry.ts'], ['getWaitTime/delay', 'retry.ts']], ['attempt events, virtual timer requests, callback calls, outcome']);
P('F04', 'memoizeWithAsync: one execution per key at a time, no caching of failures',
  'For any interleaving of concurrent calls, memoizeWithAsync never has two executions of the wrapped function in flight for the same key, and every call that joins while one is in flight settles with that execution\'s outcome. A fulfilled value is reused for later calls with the same key until it expires (strictly more than timeoutMs after it was stored), is deleted or the cache is cleared, a rejection (or synchronous throw) is never reused, and keys never affect each other. The exposed cache (of the class set as cacheInitializer when the wrapper was made) has an entry for a key exactly while its value is reusable, so removing it there forgets it.',
  ['schedules', 'histories'], 'every interleaving of calls, settlements, failures, clock advances, delete and clear over several keys',
  'The async memoize test suite needs jsdom and samples a few sequential calls; the guarantee is about all interleavings.',
  pk('function', 'cache/memoizeWithAsync.ts'),
  [['in-flight queue per key', 'memoizeWithAsync.ts: queues'], ['expiration compare', 'memoizeWithAsync.ts: Date.now() <= expiration']],
  ['wrapped-function start/settle events, call outcomes, virtual clock']);
P('F05', 'memoizeWith: cached result per key until expiry, delete or clear',
  'For any history of calls, clock advances, delete and clear, memoizeWith calls the wrapped function exactly when there is no live entry for the key (absent, deleted, cleared or older than timeoutMs), otherwise returns the identical value stored by the latest execution for that key. Values such as undefined, null, false, 0 and NaN are cached like any other, a throwing execution stores nothing, and deleting one key leaves the others cached. The exposed cache (of the class set as cacheInitializer when the wrapper was made) has an entry for a key exactly while its value is live, so removing it there forgets it.',
  ['histories', 'inputs'], 'every finite history of call/advance/delete/clear operations over several keys and any (including absent) timeout',
  'Tests replay a few short fixed histories with real timers.',
  pk('function', 'cache/memoizeWith.ts'), [['cache lookup + expiration', 'memoizeWith.ts: memoized()']], ['wrapped-function calls, returned values, virtual clock']);
P('F06', 'collectItems delivers every pushed item once, in order, in batches of set size',
  'With total set and restart on, every pushed promise\'s value is delivered exactly once, in push order, in batches of exactly total items (or, in accumulate mode, the whole ordered history so far at each multiple of total); without restart only the first batch is delivered and all other calls report not done. Without total, a batch is delivered exactly at calls flagged done and contains everything pushed since the previous delivery. Items pushed while a batch is still resolving are neither lost nor mixed into that batch\'s value. When a pushed promise rejects, the deliveries that contain it reject with its reason and all other calls are unaffected.',
  ['histories', 'schedules'], 'every push history, settle order and option combination',
  'Tests push a few already-resolved items; conservation over arbitrary histories and overlapping deliveries is not sampled.',
  pk('function', 'control/collectItems.ts'), [['promise buffer and its reset', 'collectItems.ts']], ['return values of each call vs. pushed values']);
P('F07', 'Timer helpers fire once, at the resolved duration, with a validated duration',
  'Durations given as integer, integer string, function, start/end range or array of these resolve to an integer inside the set the caller described (the number itself, one listed candidate, or an integer between start and end, both included), negative values become 0, and anything not an integer duration of at most 2147483647 ms throws TypeError before a timer is created. delay, delayRun and setTimeout run or resolve exactly when that duration has passed, delayReturn settles with its task\'s outcome when both the task and the duration are over, and timeoutOr settles with the task\'s outcome if the task finishes before the duration (leaving no timer behind) and otherwise with the fallback\'s.',
  ['inputs', 'schedules'], 'every duration form and value, and every order of task completion against the timer',
  'Tests use a few literal durations with wall-clock tolerances.',
  pk('function', 'timeout/constants/evaluateInt.ts', 'timeout/timeoutMsResolve.ts', 'timeout/timeoutOr.ts', 'timeout/setTimeout.ts', 'delay/delay.ts', 'delay/delayReturn.ts', 'delay/delayRun.ts'),
  [['evaluateInt', 'timeout/constants/evaluateInt.ts'], ['clamp and bound check', 'timeout/timeoutMsResolve.ts']], ['virtual timer requests and settlements']);
P('F08', 'Call-count wrappers: once, runOnlyNTimes, runAfterTimes, toggle, singletonClass',
  'For any call sequence: once runs its function until it first returns and gives that result ever after; runOnlyNTimes runs it on exactly the first n calls; runAfterTimes runs it on exactly the calls from the configured count on; toggle alternates strictly between its two values from whichever was last set; a singletonClass yields the same instance of exactly that class for every construction and constructs it once, whatever other classes in its hierarchy are singletons. Preset and call arguments and results of the calls that do run are passed through unchanged, and an invalid count throws TypeError. So does a callback of runOnlyNTimes or runAfterTimes that is no synchronous function.',
  ['histories'], 'every call history (including throwing functions, re-entrant and interleaved instances)',
  'Tests make two or three calls.',
  pk('function', 'limit/once.ts', 'limit/runOnlyNTimes.ts', 'limit/runAfterTimes.ts', 'select/toggle.ts', 'class/singletonClass.ts'),
  [['closure counters', 'limit/*.ts, select/toggle.ts'], ['instance slot', 'class/singletonClass.ts']], ['execution log vs. call log']);
P('F09', 'Function combinators compute the composed function, in order, once per stage',
  'compose, before, after, withBefore, withAfter, applyBefore, applyAfter, bind and currying yield functions whose result equals directly evaluating their stages in the documented order with the documented arguments, calling every stage exactly once per invocation; currying gives the same result for every way of splitting the argument list over successive calls. An exception from a stage propagates and prevents the later stages.',
  ['inputs', 'programs'], 'all stage lists, argument lists and argument splittings',
  'Tests use fixed two-stage chains and one-at-a-time currying.',
  pk('function', 'chain/compose.ts', 'chain/before.ts', 'chain/after.ts', 'chain/withBefore.ts', 'chain/withAfter.ts', 'chain/applyBefore.ts', 'chain/applyAfter.ts', 'currying.ts', 'bind.ts'),
  [['reduce over stages', 'chain/compose.ts'], ['argument accumulation', 'currying.ts']], ['stage invocation log, final value']);
P('F10', 'Outcome-capturing helpers never lose or invent an outcome',
  'padding resolves to [value, null] on success and [null, error] on failure; tryCatch rejects with exactly the callee\'s error, noCatch resolves undefined instead and ifThrow uses the fallback (called with the error and the arguments), for sync functions, async functions and promises alike; deferred settles once with what was passed first; cancelExec settles with the task\'s outcome unless aborted first, then with the abort payload\'s; select runs exactly the branch chosen by its condition, and all pass the given arguments. None of them leaves an unhandled rejection behind. toPromise hands back a promise it is given as that promise.',
  ['schedules', 'fault_sequences'], 'every callee kind, outcome and order of completion against cancellation',
  'Tests cover one success and one failure per helper and do not look for unhandled rejections.',
  pk('function', 'control/padding.ts', 'control/deferred.ts', 'control/cancelExec.ts', 'catch/tryCatch.ts', 'catch/noCatch.ts', 'catch/ifThrow.ts', 'select/select.ts', 'promise/toPromise.ts', 'promise/executeToPromise.ts'),
  [['promise normalisation', 'promise/*.ts'], ['try/catch', 'catch/*.ts']], ['settlement values, unhandledRejection events']);
P('F11', 'nextTick order and exactly-once, clearTimeoutAll, timeoutLog',
  'Whichever platform mechanism is available (process.nextTick, queueMicrotask, a MutationObserver, setImmediate or setTimeout), nextTick never runs a callback inside the call, runs every callback exactly once, without arguments, in the order of the calls (also calls made inside callbacks), before any timer when a microtask mechanism exists, and a throwing callback neither keeps others from running nor makes any run again, and nothing else throws. With numeric timer handles clearTimeoutAll leaves no timer set before it pending, returns a handle later than all of them and affects no later timer. timeoutLog prints the exact duration (milliseconds below a second; otherwise hh:mm:ss with milliseconds when not zero, preceded by whole days, the clock omitted when it is exactly zero) at every {} of the template, in every time zone, and throws a TypeError, printing nothing, for invalid durations.',
  ['schedules', 'fault_sequences', 'inputs'], 'all platforms, callback trees, timer populations and durations', 'The tests run only the first mechanism (process.nextTick) and a few durations in UTC.',
  pk('function', 'timeout/nextTick.ts', 'timeout/clearTimeoutAll.ts', 'timeout/timeoutLog.ts'), [['queue of the observer fallback', 'nextTick.ts: byObserver'], ['duration text', 'timeoutLog.ts']], ['callback runs, reported errors, pending timers, printed text']);

/* ---------------------------------------------------------------- util ---- */
P('U01', 'copy returns an equal, fully detached structure, preserving sharing and cycles',
  'copy of any acyclic or cyclic value built from primitives other than symbols, boxed primitives, plain objects, null-prototype objects, arrays (sparse ones included), Date, RegExp, Error, Map, Set, ArrayBuffer, DataView, typed arrays and Buffers is structurally equal to the original (same kinds, own string and symbol keys with their attributes, values, lengths, flags, lastIndex, bytes, map entries and set items) and has the same internal sharing and cycles. No object reachable from the copy through properties, map entries or set items is reachable from the original, so mutating either never shows in the other, and the original is left unmodified.',
  ['inputs'], 'every value graph built from the listed kinds, of any shape, sharing and size',
  'The copy tests need jsdom and do not run here; they list examples of single types.',
  pk('util', 'copy.ts', 'copyAttrs.ts'), [['memo of visited objects', 'copy.ts'], ['per-kind cloners', 'copy.ts']], ['graph isomorphism and address disjointness between value and copy']);
P('U02', 'stringify output evaluates back to an equal value',
  'For any acyclic value built from primitives other than symbols, boxed primitives, plain and null-prototype objects (any own enumerable string or registered-symbol keys except an own toString), arrays (sparse ones included), Date, RegExp, Map, Set, typed arrays and Buffers, evaluating the code text produced by stringify yields a structurally equal value, and asyncStringify produces the same text. Every back reference of a cyclic value appears as [Circular] instead of recursing, and asyncStringify renders a settled promise as Promise.resolve or Promise.reject of its value\'s text.',
  ['inputs'], 'every value of the listed grammar', 'The stringify tests need jsdom and check literal expected strings.',
  pk('util', 'stringify.ts'), [['per-kind emitters', 'stringify.ts']], ['text produced, value obtained by evaluating it']);
P('U03', 'Attribute queries agree with the object: allAttrs, lackAttrs, copyAttrs',
  'allAttrs returns exactly the own string and symbol keys of a value (an empty list for primitives), lackAttrs returns exactly the requested keys that are not own keys of the value, in request order (none for null or undefined), and copyAttrs returns the destination itself after giving it a deep copy of every own attribute of the source (only of those the destination lacks when asked so), without touching its other attributes or the source. A requested key given as a number stands for its string form.',
  ['inputs'], 'all objects (string and symbol keys, inherited and non-enumerable keys, falsy values) and key lists', 'Only example objects are tested.',
  pk('util', 'allAttrs.ts', 'lackAttrs.ts', 'copyAttrs.ts'), [['own/in test per key', 'allAttrs.ts, lackAttrs.ts']], ['return values']);

P('U04', 'copy reproduces functions, accessors, symbols and data objects, detached',
  'copy of a self-contained function written in any form (function, arrow, async, generator, class, method or computed method of any name) gives a different function that returns, yields and throws the same for every argument list and receiver and carries deep copies of the original\'s own properties; sharing of a function and references back to it are kept, and native functions are kept as they are. An accessor property stays an accessor with the same attributes whose detached functions act on the copy. A symbol inside the copy holds the same symbol. URL, URLSearchParams, Blob, File, FormData, SharedArrayBuffer, DOMException, AggregateError, arguments objects, streams and subclasses of built-in kinds keep their kind, content, stack and own properties without sharing them with the original. A value holding something that cannot be copied (Promise, WeakMap, WeakSet, WeakRef, Event) throws.',
  ['inputs'], 'every self-contained function source and name, every listed data object with any content, alone or inside any structure', 'Tests copy a dozen literal functions, mostly comparing their text; they never call a copied method or look at content for arbitrary names and values.',
  pk('util', 'copy.ts', 'allAttrs.ts', 'lackAttrs.ts'), [['source text re-evaluated', 'copy.ts: copyFunction'], ['accessor copy', 'copy.ts: copyAttrs'], ['copy per kind', 'copy.ts: copyByTag']], ['return values and yields of original and copy, descriptors, content']);
P('U05', 'stringify renders symbols, errors, URLs, functions and hooks; promises nested',
  'For symbols (registered, well-known or local, as values or keys), built-in errors and AggregateError, DOMException, URL, URLSearchParams, arguments objects, self-contained functions, built-in prototypes and sparse arrays of any length, alone or inside containers, the text of stringify evaluates to the same symbol (or a fresh one of the same description), an error of the same kind and message, the same address or parameters, an array of the arguments, a function of the same source, the same prototype, or an array with the same length and holes (without a text as long as the array). An object with a serializer method is rendered as that method\'s text (its asynchronous form only by asyncStringify and only if it fulfils) and in the ordinary way if the method throws or rejects. asyncStringify renders promises nested to any depth and leaves no timer behind when all are settled. nearestDate changes only dates of the current second, and an error thrown by toString goes to errorHandler, or to the caller without one.',
  ['inputs', 'schedules'], 'every listed value alone or nested, every serializer outcome, every nesting of settled and pending promises, every clock reading', 'Tests render one example of each kind and compare the text with a literal.',
  pk('util', 'stringify.ts'), [['text per kind', 'stringify.ts: stringifyInternal'], ['promise state cache and loop', 'stringify.ts: possiblyAsyncStringify']], ['texts, evaluated values, serializer calls, timers']);
P('U06', 'The environment probes report what the running engine allows',
  'maxArgsLength returns the number of arguments a call made from the same place can take (up to a few thousand: with fewer it works, with many more it does not) and maxCallStackSize the number of frames of its own size that fit on the rest of the stack, as integers, without throwing, whatever the stack size of the process and however deep the caller is, and both leave the stack usable.',
  ['configurations'], 'all stack sizes and call depths', 'The tests only check that a number comes back.',
  pk('util', 'maxArgsLength.ts', 'maxCallStackSize.ts'), [['doubling and bisection', 'maxArgsLength.ts'], ['counting recursion', 'maxCallStackSize.ts']], ['returned numbers, calls with that many arguments']);

/* ---------------------------------------------------------------- array ---- */
P('A01', 'Array partition helpers neither lose, duplicate nor reorder items',
  'splitByStep, splitChunk, flat and fromArrayLike return the same items in the same order as their input (concatenating the parts gives the input back). splitByStep parts have exactly the step size except a shorter last one; splitChunk gives at least the requested number of parts, and exactly that number, sizes differing by at most one with the larger parts at the named side, when a pad position is given. shuffle returns a permutation in a new array and can reach every order, move relocates exactly one item to the requested position, and an invalid size or position throws without changing the array.',
  ['inputs'], 'every array (including sparse-free arrays with duplicates, nested, empty and large ones) and every valid size, position and random outcome',
  'Tests use short literal arrays.', pk('array', 'splitByStep.ts', 'splitChunk.ts', 'flat.ts', 'shuffle.ts', 'move.ts'),
  [['slice/step loops', 'splitByStep.ts, splitChunk.ts'], ['swap loop', 'shuffle.ts']], ['returned arrays vs. input multiset/order']);
P('A02', 'toTree conserves nodes and mirrors the parent relation, whatever the input order',
  'For any flat list with unique ids, in any order, toTree returns a forest that holds every node exactly once under the node its parent id names (as a root when the parent id is null, undefined or a root parent id), with siblings in input order. Nodes that hang below an unknown parent id or a cycle are left out, or make toTree throw when throwIfOrphans is set; an item whose id is a root parent id throws. Key-name, nested-key, container and assign options change only names and containers, numbers and their decimal strings name the same id, and no id text (such as constructor or __proto__) is special.',
  ['inputs'], 'every parent function over any id set and every ordering of the list', 'Tests use one or two hand-made trees in parent-first order.',
  pk('array', 'toTree.ts'), [['id index + child attachment', 'toTree.ts']], ['returned forest, thrown errors']);
P('A03', 'each*/map* families visit each element once, in order, and stop where told',
  'The each and map families call the callback once per element with (item, index, array), in index order or reverse order for the Right forms, one at a time (each awaited before the next) for the Async forms and all started at once, before any completes, for the Parallel ones; map results are collected in callback order whatever the completion order, and the promise settles only when every callback has finished. A callback of a non-parallel each form that gives exactly true stops it right after that element, and the first error or rejection propagates to the caller.',
  ['schedules', 'inputs'], 'every array, callback outcome and completion order', 'Tests use fixed arrays and immediately resolved callbacks.',
  pk('array', 'each', 'map'), [['iteration loops', 'packages/array/src/each*, map*']], ['callback start/finish log, return value']);
P('A04', 'Array queries and conversions agree with their mathematical definition',
  'isUnique, uniqueFromPrimitive, dimensionLevel, isMultiDimensional, maxRecursionDepth, maxLengthIndex, minLengthIndex, range (over integers), toObject, toArray, sortToIndexes, sortByEng, sortByEngInitials and sortWords return what the definition in their documentation gives for every dense array, of any size, and, the three in-place word sorts apart, never modify the array they are given; invalid dimensions and steps throw TypeError.',
  ['inputs'], 'all arrays, nested arrays and comparator options', 'Example based tests.',
  pk('array', 'isUnique.ts', 'uniqueFromPrimitive.ts', 'dimensionLevel.ts', 'range.ts', 'toObject.ts', 'sort'),
  [['loops over the array', 'packages/array/src/*.ts']], ['return values vs. reference implementation']);

/* ---------------------------------------------------------------- number ---- */
P('N01', 'amountInWords writes the amount the digits denote',
  'For every amount with at most 14 integer digits and at most 4 decimal digits, given as a number or a decimal string with or without a minus sign, the Chinese financial numeral produced denotes exactly that amount and sign when read back, is well formed (descending units, exactly one 零 for each run of zeros before a non-zero digit of its four-digit group, 整 exactly when no unit below 角 is written) and carries the requested prefix; amounts with more digits, exponent or other notation and non-numbers are rejected with TypeError.',
  ['inputs'], 'all amounts in the domain', 'A table of examples cannot settle the zero-insertion rules over all digit patterns.',
  pk('number', 'amountInWords.ts'), [['digit grouping and zero handling', 'amountInWords.ts']], ['returned text, parsed back by an independent reader']);
P('N02', 'Random helpers stay inside their documented range and reach all of it',
  'Every result of number random, randomSafe, range, rangeSafe, of array random, and of the string random generators (boolean, lower, upper, hex colour, digit string) lies in the documented set for every argument and every underlying random draw, the first and the last element of a range (of up to 2^53 integers) are produced by the lowest and the highest draw, every value of a small set is reachable, digit strings have exactly the requested length, and unsafe integer bounds throw TypeError. The safe forms draw only from the platform\'s cryptographic generator, under whichever vendor name a browser offers it, and randomSafe depends on the whole draw. When the draws are evenly spread, so are the results: the values of a range, the items of an array, letters, colour digits and booleans come up equally often, and shuffle gives every order equally often (digit strings are not claimed to be even).',
  ['inputs', 'schedules'], 'all argument values and all values the underlying generator can return (including its extremes)', 'Tests sample real randomness a few times, so an end point that is off by one is practically never drawn.',
  [...pk('number', 'random.ts', 'randomSafe.ts', 'range.ts', 'rangeSafe.ts'), ...pk('string', 'random')],
  [['scaling of Math.random / getRandomValues', 'packages/number/src/*.ts']], ['results with the entropy source replaced by chosen draws']);
P('N03', 'Numeric conversions and formatting preserve the value',
  'toInt (largest integer not above the value), toFiniteNumber, inRange (both bounds included, in either order) and stringify (text that reads back as the identical number, -0 included) agree with exact arithmetic for every number or numeric string, withDelimiter groups exactly the integer digits from the right and leaves sign and decimals alone so that removing the delimiters restores the text, and values outside the documented domain throw TypeError.',
  ['inputs'], 'all finite numbers, boundary values, special values and numeric strings', 'Example based tests.',
  pk('number', 'toInt.ts', 'toFiniteNumber.ts', 'inRange.ts', 'stringify.ts', 'withDelimiter.ts'), [['conversion expressions', 'packages/number/src/*.ts']], ['returned values vs. exact reference']);

/* ---------------------------------------------------------------- object ---- */
P('O01', 'Cascade key text and key lists convert both ways and address the right value',
  'toCascadeKeys(fromCascadeKeys(keys)) equals keys for every non-empty list of array indexes and string keys (non-empty, without spaces at the ends, without ] or both kinds of quotes, not themselves a quoted string), and the given list is not changed. Reading an object through cascade with such a text yields exactly the value those keys address (undefined below a missing value for plain names, a TypeError or, without isThrow, undefined for indexes) without changing the object, and no key is ever run as code. Names in brackets stand for the string or number of that name in the dependencies (0 and the empty string included); malformed texts and undefined dependencies throw.',
  ['inputs'], 'all key lists over identifiers, array indexes and punctuation-bearing, quoted, non-ASCII keys, and all nested objects and dependencies', 'Example based tests over identifier-like keys.',
  pk('object', 'cascade.ts', 'toCascadeKeys.ts', 'fromCascadeKeys.ts'), [['key tokenizer', 'toCascadeKeys.ts'], ['key printer', 'fromCascadeKeys.ts']], ['returned keys/text/values']);
P('O02', 'Key-level object helpers transform exactly the keys they name',
  'sortKeys (own enumerable string keys of a plain object sorted by the comparator, at every level with deep and only at the top without, sharing and cycles kept), toLowerCaseKey, deleteAttrs, derive, keys, values, toArray, isKeysIncludes, isValuesIncludes, shallowEqual, getProperty, getPropertyGetter, getFromPaths, isPrototypeProperty, isInstanceOf (direct prototype), constructor, constructorName and createWithNull return what their definition gives for every object, keep every value, attribute and prototype they are not asked to remove, and modify no argument except that deleteAttrs deletes from its object (or returns a derived one when a property cannot be deleted). Key __proto__ is out of scope. A number names the property of its text; a custom comparison of shallowEqual gets the key of each pair.',
  ['inputs'], 'all objects over string/symbol keys with nested, shared and cyclic values', 'Example based tests.',
  pk('object', 'sortKeys.ts', 'toLowerCaseKey.ts', 'deleteAttrs.ts', 'derive.ts', 'shallowEqual.ts', 'getFromPaths.ts'), [['key loops', 'packages/object/src/*.ts']], ['returned objects, argument snapshots']);
P('O03', 'JSON: stringify equals JSON.stringify (sorting, cycles), parseJson JSON.parse',
  'For every acyclic value the promise from object stringify resolves to exactly the text JSON.stringify gives for it with the same indentation and replacer (with a replacer array, the same value), plain-object keys ordered by compare when given, and rejects exactly when JSON.stringify throws; the argument is left unchanged. In a cyclic value of plain objects and arrays every back reference becomes the text [Circular *path of the ancestor], or the promise rejects with cycles: false; it never hangs. parseJson resolves to exactly the value JSON.parse gives, calling a reviver the same way, and rejects (never throws) exactly when JSON.parse throws.',
  ['inputs'], 'all values of plain objects, arrays, dates, maps, boxed values, class instances and toJSON holders, replacers, compare functions, indentations and cyclic shapes', 'Example based tests.',
  pk('object', 'stringify.ts').concat(pk('string', 'parseJson.ts')), [['replacer chain', 'stringify.ts']], ['resolved text / rejection']);

/* ---------------------------------------------------------------- cookie ---- */
P('C01', 'A created cookie parses back to the same name, value and attributes',
  'For every cookie whose name is an HTTP token, whose value is any non-empty well-formed text under the default encoding (or printable text without white space or `;` taken verbatim) and any set of valid attributes (expiry years 1000 to 9999), parsing the text of createCookie with parseSetCookie yields exactly that name, value and the attributes that were set, the expiry to the second and Max-Age rounded down; no name, value or attribute that createCookie accepts adds another attribute or a line break. Parsing a Cookie request header built from name/value pairs with parseCookie yields each name once with its full value (the last one of a repeated name), with any white space around the separators, and ignores parts without an equals sign. A value that cannot be percent-decoded is returned as it stands; text without any name=value pair, a name that is no string or holds an equals sign, and a decode function that does not return a string make these functions throw. Expires is written as an HTTP date (GMT). In a Set-Cookie text the name and value are always those of its first pair, whatever attributes follow.',
  ['inputs'], 'all names, values (including =, %, quotes, unicode) and attribute combinations', 'Example based tests with plain values.',
  pk('cookie', 'cookie/create.ts', 'setCookie/parse.ts', 'cookie/parse.ts'), [['encode/decode and attribute split', 'packages/cookie/src/*.ts']], ['produced text and parsed objects']);
P('C02', 'splitSetCookie inverts comma-joining of Set-Cookie header lines',
  'For any list of Set-Cookie lines (with Expires dates that contain commas, any attribute order, commas in values and paths as long as no comma is followed by text up to an equals sign with no comma or semicolon between, and any white space after the joining comma), splitting the comma-joined header returns exactly those lines; joinSetCookie applied to the parsed lines gives every name=value pair in order, and applied to the map form the last pair of each name.',
  ['inputs'], 'all lists of Set-Cookie lines and separators', 'Example based tests.',
  pk('cookie', 'setCookie/split.ts', 'setCookie/join.ts'), [['lookahead past commas', 'splitSetCookie.ts']], ['returned arrays']);

/* ---------------------------------------------------------------- regexp ---- */
P('R01', 'execAll finds exactly the matches matchAll finds and keeps the pattern',
  'For every pattern and string execAll returns the same match sequence (text, index, captures, groups) as matchAll for a global pattern and as one exec for any other, an empty array when there is none, or the requested property or callback result of each match; it ends also for empty matches, leaves lastIndex of the pattern unchanged (also when the callback throws) and gives the same answer when called again with the same pattern object. testSome and testEvery tell whether some or every pattern matches the text searched from its start, with the same answer on every call also for global and sticky patterns; mapReplace equals applying String.replace pattern by pattern; matchNextIndex is the index just past a match.',
  ['inputs', 'histories'], 'all regular expressions (flags, empty-matching, stateful) and strings, repeated calls', 'Example patterns only.',
  pk('regexp', 'execAll.ts', 'mapReplace.ts', 'matchNextIndex.ts', 'testSome.ts', 'testEvery.ts'), [['exec loop', 'execAll.ts']], ['match lists vs. String.prototype.matchAll']);
P('R02', 'Format validators accept and reject the right languages',
  'isIp accepts exactly the IPv4 and IPv6 texts (without zone) that the platform\'s IP parser accepts and bracketed IPv6 texts with an optional port from 0 to 65535 without leading zeros; isEmail and isURI accept every text of their documented grammar within the length limits (64 for the user, 255 for the domain, 2000 for the normalised link) and reject every other text, without throwing; isChinaPhoneNumber accepts an optional +86 or 0086 prefix and eleven digits starting with 1 at level 0, with 13 to 19 at level 1 (the default) and with the listed subscriber prefixes at level 2, for strings and numbers. A verdict never depends on earlier calls. IPv4 octets with a leading zero are unspecified.',
  ['inputs', 'histories'], 'all strings, generated from the grammar and mutated', 'Tables of examples.',
  pk('regexp', 'isIp.ts', 'isEmail.ts', 'isURI.ts', 'isChinaPhoneNumber.ts'), [['regular expression source', 'packages/regexp/src/source']], ['boolean verdicts']);
P('R03', 'Script and punctuation predicates classify by code point, position-independently',
  'inChinese is true for a string exactly when at least one of its code points is a unified ideograph (of Unicode 11, in any plane), and with the second argument only if moreover no kana occurs; inJapanese exactly when one is a Han, hiragana or katakana character of the Basic plane; inChkPunctuation exactly when one is in the General, Supplemental or CJK punctuation, compatibility forms, vertical forms or half- and full-width forms blocks; whatever surrounds it and however often they are called.',
  ['inputs', 'histories'], 'all strings over the Basic and supplementary planes', 'Examples only.',
  pk('regexp', 'inChinese.ts', 'inJapanese.ts', 'inChkPunctuation.ts'), [['character class', 'packages/regexp/src/source']], ['boolean verdicts']);
P('R04', 'Exported character classes match exactly their documented sets',
  'Each class of regexp.source, as a pattern alone, repeated or searched for in a text, matches exactly the code points of its documented set: ascii those below 128, blank the separators (Z), control the others (C), punctuation the punctuation (P) and $ < > ^ ` ~ and the full-width tilde, unifiedIdeograph the unified ideographs in every plane, and in the Basic plane korean the Hangul script, hiragana the Hiragana script and the voicing marks, katakana the katakana blocks, han the Han script and the enclosed and compatibility letters, japanese the Han, Hiragana and Katakana scripts, chkPunctuation six whole punctuation blocks. Code points assigned after Unicode 12 are unspecified.',
  ['inputs'], 'every code point, and all texts made of them', 'Tests try a few characters of each class.',
  pk('regexp', 'source/ascii.ts', 'source/blank.ts', 'source/control.ts', 'source/punctuation.ts', 'source/han.ts', 'source/korean.ts', 'source/hiragana.ts', 'source/katakana.ts', 'source/japanese.ts', 'source/unifiedIdeograph.ts', 'source/chkPunctuation.ts'), [['class texts', 'source/*.ts']], ['matches per code point']);

/* ---------------------------------------------------------------- string ---- */
P('S01', 'Byte helpers agree with real UTF-8',
  'bytesArray and bytesLength equal the UTF-8 encoding and its length for every string (any code points, lone surrogates as U+FFFD); codePointAt agrees with the platform and is null for an invalid index; splitByBytes returns non-empty consecutive pieces whose concatenation is the input, each at most the limit in UTF-8 bytes unless it is a single longer character, and greedily as large as possible, and throws for a limit that is not a positive integer; chars and fromChars are inverse; formatBytes names the largest fitting unit (1000 or 1024 based) and a value that denotes the byte count to the requested number of decimals.',
  ['inputs'], 'all strings and limits', 'Tests contain few non-BMP strings and no surrogate edge cases.',
  pk('string', 'bytes/bytesArray.ts', 'bytes/bytesLength.ts', 'bytes/splitByBytes.ts', 'bytes/formatBytes.ts', 'character/codePointAt.ts', 'chars/chars.ts'),
  [['code point to byte arithmetic', 'bytes/*.ts']], ['returned arrays/numbers vs. Buffer']);
P('S02', 'Trim and space helpers remove exactly the selected characters where asked',
  'trim, trimStart, trimEnd, trimAll and isSpaceString treat as removable exactly the union of the selected character groups (space, zero-width, space-like, control) and the literal extra characters: they remove the maximal run at the named end(s), or everywhere, and leave every other character in place and in order; isSpaceString is true exactly for non-empty text of removable characters. rmZeroWidth, rmLikeSpace and rmControl with their Start and End forms do the same for their group (rmLikeSpace turns inner ones into a plain space); startSpacesLength and startTabsLength count the leading run; subSpaces adds single spaces beside matches only, where the neighbour is neither punctuation nor a space. All of them end promptly also for long runs of a character that is given more than once among the extras or is in a selected group as well.',
  ['inputs', 'configurations'], 'all strings, option combinations and extra characters (including regular-expression metacharacters)', 'Examples with default options.',
  pk('string', 'trim/trim.ts', 'trim/trimStart.ts', 'trim/trimEnd.ts', 'trim/trimAll.ts', 'trim/trimRegSource.ts', 'spaces', 'character/characters.ts'),
  [['character class source', 'trim/trimRegSource.ts']], ['returned strings vs. character-set reference']);
P('S03', 'HTML entity encoding decodes back to the original text',
  'Every entity number is the code point it stands for, no two entities share a name or a character, and for every string the name-encoded and the number-encoded text contain no raw character that has an entity, and decode back to the string by their own decoder and by the combined one; decoding replaces each known entity exactly once, never decodes its own output, and leaves unknown entities and all other text unchanged.',
  ['inputs'], 'all strings, including ones that already look like entities', 'Examples without nested entity text.',
  pk('string', 'character/htmlEntities.ts', 'character/constants/htmlEntities.ts'), [['replacement maps', 'character/htmlEntities.ts']], ['encoded and decoded strings']);
P('S04', 'Prefix, position and word searches agree with plain string search',
  'notStarts, startsSlice, frontOf, behindOf, matchOrder, matchSplit, multiReplace, word, wordStart and wordEnd return what direct string search from the given position gives for every string, chunk list (metacharacters taken literally) and position, case-sensitively or, if asked, ignoring case; startsSlice removes the chunk (and, unless preserve is set, what precedes the position) only when the text at the position starts with it. startsSlice, and notStarts with text and chunks to compare, throw for a position that is not an index up to the length; the word functions throw for a position that is not an index.',
  ['inputs'], 'all strings, chunks and positions', 'Examples only.',
  pk('string', 'starts/notStarts.ts', 'starts/startsSlice.ts', 'find/frontOf.ts', 'find/behindOf.ts', 'match', 'words', 'multiReplace.ts'),
  [['position/flag handling', 'starts/*.ts, find/*.ts']], ['return values']);
P('S05', 'toRegExp matches the literal string and nothing else',
  'For every non-empty string and valid combination of the flags g, i, m, u, y toRegExp yields a pattern with exactly those flags (g by default) that matches exactly the occurrences of that literal string (ignoring case only with i); other flags throw; and toRegExpSource does so when embedded in a larger pattern, with or without the u flag: between other text, repeated, in alternatives and as the characters of a class.',
  ['inputs'], 'all strings over all metacharacters and unicode, all flag sets', 'Examples only.',
  pk('string', 'regexp/toRegExp.ts', 'regexp/toRegExpSource.ts'), [['escape set', 'regexp/toRegExpSource.ts']], ['match positions vs. indexOf']);
P('S06', 'Text-rewriting helpers keep the text they are not asked to change',
  'bindInside and bindOutside present non-empty, disjoint, ordered pieces of the text to the callback, put its results exactly in their place and change nothing else (an identity callback returns the input), and for well-formed text give it exactly the bracketed or quoted groups (nested ones as part of the outer) or exactly the text between them; toSentences returns pieces that together keep every non-space character in order and for sentences ended by . ! ? ; or their full-width forms splits after each and never inside quotes or brackets; corrector keeps every letter, digit and ideograph in order, converting full-width forms to half-width except the common Chinese punctuation. quotePair returns the quotation mark that is still open at the end of the text, if any, a mark after a backslash inside its quotes not counting. The documented Latin abbreviations end no sentence in English text, nor does an ellipsis if the ellipsis option is false.',
  ['inputs'], 'all strings over quotes, brackets, escapes, CJK and latin text', 'Examples only.',
  pk('string', 'inside/bindInside.ts', 'inside/bindOutside.ts', 'sentences/toSentences.ts', 'corrector'), [['scanner loops', 'inside/*.ts']], ['returned text vs. input projection']);

/* ---------------------------------------------------------------- fs ---- */
P('X01', 'copy reproduces a file tree without disturbing the source or unrelated files',
  'copy makes the destination contain every regular file (same bytes), directory and symbolic link (same link text) of the source at the same relative path, for a file, link or tree, keeps existing destination files at every depth when forcibly is false and overwrites them otherwise, leaves other destination entries alone, creates folders its owner can enter, and never modifies the source or anything outside the destination; a missing source, a destination occupied by a non-folder, or one inside the source folder rejects. copyFile places the file at its relative path under the destination folder with equal bytes, replacing what is in the way only if forcibly is set, and never modifies its source or other entries even when it fails. (Links in the destination are left unspecified.)',
  ['inputs', 'configurations', 'histories'], 'all source/destination trees of files, directories and links and both forcibly modes', 'The fs package has no tests at all.',
  pk('fs', 'copy.ts', 'copySymbolicLink.ts', 'copyFile.ts', 'mkdir.ts'), [['recursive copy', 'copy.ts']], ['tree snapshots before/after']);
P('X02', 'Deletion removes exactly the named entry and never reaches through a link',
  'deleteOne removes exactly the named file, link (also a dangling one or one to a folder) or directory tree and clearDir empties the named directory but keeps it; nothing outside it, including the targets of symbolic links in or below it, is ever changed, and an invalid, missing or (for clearDir) non-directory path rejects without deleting anything.',
  ['inputs', 'histories'], 'all trees with files, directories, links out of the tree, and invalid paths', 'No tests.',
  pk('fs', 'deleteOne.ts', 'clearDir.ts'), [['type dispatch', 'deleteOne.ts']], ['tree snapshots of the victim and its surroundings']);
P('X03', 'diffFile is true exactly for two readable files with identical bytes',
  'For any two paths diffFile resolves to true if and only if both are readable files and their contents are byte-for-byte equal, whatever their sizes, gives false or rejects when one is not a readable file, and leaves no file descriptor open.',
  ['inputs'], 'all pairs of contents (sizes around the block size, trailing zero bytes, single differing byte) and unreadable paths', 'No tests.',
  pk('fs', 'diffFile.ts'), [['block compare loop', 'diffFile.ts']], ['result, open descriptor count']);
P('X04', 'Line readers split text the same way, losing no byte',
  'readline (CR, LF, CRLF) and readlineFromCode (also LS, PS, NEL) deliver the lines between the terminators, in order, with done exactly on the last, identically for a string and for the Buffer holding it in the given encoding, as an array or through the callback; readlineStream delivers the lines of a file in order, however the blocks arrive, returns an array or true, rejects when the file cannot be read and closes it; readFragment returns exactly the bytes from start to end inclusive (or their first line) and closes the file; stripBOM removes one leading mark only. If the callback of readlineStream throws, the call rejects with that error, delivers nothing more and closes the file.',
  ['inputs'], 'all texts over all terminator mixes, encodings and chunk boundaries', 'No tests.',
  pk('fs', 'readline.ts', 'readlineFromCode.ts', 'readlineStream.ts', 'readFragment.ts', 'stripBOM.ts'), [['terminator switch', 'readline.ts']], ['callback sequence']);
P('X05', 'Listing and probing report the tree that is there',
  'fileList returns every non-directory entry below the directory exactly once (or exactly the direct entries in one-level mode; shortcut files *.lnk may be skipped), findDir every topmost directory with a requested name and nothing else, neither following links; isFile, isDir, isSymbolicLink and symbolicLink agree with the file system for every path; and destPath maps a file under the source directory to the same relative path under the destination, creating its folder only on request.',
  ['inputs'], 'all directory trees and names', 'No tests.',
  pk('fs', 'fileList.ts', 'findDir.ts', 'isDir.ts', 'isFile.ts', 'isSymbolicLink.ts', 'destPath.ts'), [['readdir recursion', 'fileList.ts']], ['returned lists vs. an independent walk']);
P('X06', 'What writeFile writes, readFile reads back',
  'After writeFile resolves, the file holds exactly the data (text in the encoding, bytes, or the JSON of a plain object or array when formatting is on; appended with flag a) and readFile returns it in the requested encoding; missing directories are created exactly when requested, enterable by their owner; unserialisable data, an existing file with flag wx, and unwritable or missing paths reject, leaving an existing file as it was; concurrent writes to different files do not disturb each other.',
  ['inputs', 'configurations'], 'all data, encodings and options', 'No tests.',
  pk('fs', 'writeFile.ts', 'readFile.ts', 'mkdir.ts'), [['format + write', 'writeFile.ts']], ['bytes on disk, returned text']);
P('X07', 'Windows shortcuts resolve to their target and are followed like it',
  'On Windows readLnk asks for exactly the given shortcut, whatever characters its path contains, and resolves with exactly its target path, rejecting when the shortcut cannot be read (and always, without running anything, on other systems). fileList and findDir treat a shortcut to a folder (with or without a dot in its name) like a folder at that place, fileList lists a shortcut to a file as that file, and shortcuts that cannot be resolved are skipped without affecting the rest; folders that are merely named like a shortcut are ordinary folders. destPath maps a file reached through a shortcut in the source folder to the place below the destination named after that very shortcut, creating the folder exactly when asked. A shortcut leading back to a folder that is being listed is not followed again, so every listing and search ends, having reached everything.',
  ['inputs', 'fault_sequences'], 'all shortcut names, targets, unresolvable shortcuts and trees around them', 'The only tests need a Windows machine; none exist.',
  pk('fs', 'readLnk.ts', 'fileList.ts', 'findDir.ts', 'destPath.ts'), [['PowerShell command', 'readLnk.ts'], ['shortcut branch', 'fileList.ts'], ['shortcut branch', 'destPath.ts']], ['commands run by the library, returned lists and paths']);

/* ---------------------------------------------------------------- process / os ---- */
P('P01', 'spawn delivers arguments verbatim, also through a shell',
  'With or without a POSIX shell, the child started by spawn receives exactly the given argument list (any characters: quotes, spaces, $, backquotes, globs, brackets, braces, newlines, empty strings), so no argument is ever expanded, split or executed as shell code; open passes its arguments to the system opener, or to the given command, in the same verbatim way. With cmd.exe as shell the command line it is given decodes, by the rules of cmd.exe (one level of ^ escapes, two for .cmd and .bat commands) and of Windows argument parsing, to the given list. The caller\'s argument list and options are not changed. Whether the command is a .cmd or .bat file is looked up with the caller\'s PATH and PATHEXT. open uses start through ComSpec on Windows and in WSL, open on macOS and xdg-open elsewhere unless a command is given.',
  ['inputs'], 'all argument lists and shells', 'No tests.',
  pk('process', 'spawn.ts'), [['escapeSh quoting', 'spawn.ts']], ['argv echoed by the child']);
P('P02', 'spawn and exec report the child\'s complete output and exit',
  'spawn resolves once, after the child has exited and its output streams have closed, with all bytes written to stdout and stderr (trimmed text by default, raw bytes with isToString false, null for streams that are not piped) and its exact exit status or signal whatever it is, and rejects only when the child cannot be run (with the command, arguments and error), never with an uncaught exception; soon after the call the promise gives access to the child and its stdin. exec joins command parts with spaces and reports the same output in full, rejecting with output and exit code on a non-zero status or signal. Concurrent calls never mix their outputs. sleep(ms) resolves after that time.',
  ['inputs', 'schedules', 'fault_sequences'], 'all output sizes, chunkings, exit codes, signals, stdio settings and numbers of concurrent children', 'No tests.',
  pk('process', 'spawn.ts', 'exec.ts'), [['close event + buffered chunks', 'spawn.ts']], ['resolved object vs. what the child did']);
P('K01', 'kill signals exactly the processes of the given tree, each once',
  'On Linux, kill(pid) and asyncKill(pid) send the given signal exactly once to the root and to every live descendant (the root\'s children before the root) and to no other process, whatever the tree shape and the order and chunking of its discovery, then call back (resolve) once; processes that disappear meanwhile are ignored, any other failure to signal is reported, and a pid that is not a number, negative, fractional or unsafe is refused with an error without signalling anything. The same holds on macOS, where children are listed with pgrep; on Windows exactly one forced taskkill of the tree of that pid runs and its outcome is called back once; without a callback a failure is thrown; other systems are refused. If the children of a process cannot be listed, that is reported once and nothing is signalled.',
  ['inputs', 'schedules', 'fault_sequences'], 'all process trees, discovery orders and signal failures', 'No tests, and real trees cannot be enumerated.',
  pk('os', 'kill.ts'), [['tree building by child listing', 'kill.ts'], ['killed set', 'kill.ts']], ['recorded signals (stand-in), callback calls']);
P('K02', 'Windows task, shortcut and platform helpers report and pass the truth',
  'windowsTaskList returns one entry per task that tasklist prints, with its exact image name, PID, session name and number and memory in KB without separators, even when a value fills its column; findWindowsTask returns exactly the entries of the given image name; killWindowsTask asks for exactly that image name and returns true exactly when the task was ended; windowsLocal returns the language name on Windows and null elsewhere; windowsMakeShortcut passes the given values and the documented defaults to the script in order, rejects missing sources and folders unless forced, and rejects on other systems; the platform flags and appendCmd follow the operating system type.',
  ['inputs', 'configurations'], 'all task tables, outcomes and shortcut options', 'No tests; the real commands only exist on Windows.',
  pk('os', 'windows/taskList.ts', 'windows/findTask.ts', 'windows/killTask.ts', 'windows/local.ts', 'windows/makeShortcut.ts', 'platform.ts'), [['column parsing', 'windows/taskList.ts'], ['outcome of taskkill', 'windows/killTask.ts']], ['returned values, arguments received by stand-in commands']);

/* ---------------------------------------------------------------- request ---- */
P('Q01', 'request transmits what was asked and returns the exact decoded response',
  'For options objects, URL strings and URL objects, the server receives the requested method, path with the query pairs encoded so that they decode to the given ones, the given headers (case-insensitively overriding the defaults, each sent once), the credentials of the URL or the auth option as Basic authorization, and the body bytes (text, bytes, urlencoded or JSON per Content-Type) with a matching Content-Length; the result holds the response status, reason and complete body, with gzip, deflate (raw or zlib) and br content decoded, for any chunking and empty for answers without a body. Invalid requests are rejected and send nothing. Concurrent requests never mix, and the options object passed by the caller is left unchanged, so it serves any number of calls. A decoded answer no longer carries a content-encoding header. The query of the URL comes first, the query option is appended to it. Unless given, the Host header names the requested host and, if it is not the protocol\'s default, the port, and the Origin header the same with the scheme. Options such as agent, lookup and signal are used as they are given, frozen options work like others, and what the caller does to the object after the call changes nothing.',
  ['inputs', 'schedules'], 'all methods, queries, headers, bodies, encodings and response chunkings', 'No tests run offline.',
  pk('request', 'request/request.ts', 'request/options.ts', 'request/body.ts', 'request/content.ts'), [['option normalisation', 'request/options.ts'], ['decompression pipeline', 'request/content.ts']], ['loopback server log, result object']);
P('Q02', 'Redirects are followed within the limit and credentials never cross hosts',
  'A 3xx response with a Location (absolute or relative) is followed at most maxRedirects times (21 by default, 0 returns the 3xx itself), each hop going to exactly the given location, names and IPv6 addresses alike; 301/302 turn POST, and 303 any method but HEAD, into a GET without body while 307/308 keep method and body, other headers are kept; after a redirect to a different host name neither cookie, authorization nor auth credentials nor a given Host header are sent there or anywhere later in the chain, while redirects within the host keep them; the header and data handlers see the final answer, once; an invalid Location rejects; the caller\'s options stay unchanged. Every hop carries what the request was called with, even if the caller changes the options object meanwhile.',
  ['inputs', 'histories'], 'all redirect chains over several hosts, status codes and header sets', 'No tests run offline.',
  pk('request', 'request/request.ts'), [['redirect branch', 'request.ts']], ['loopback server logs per host']);
P('Q03', 'Form data is encoded exactly; handlers stop transfers; failures reject once',
  'A multipart body produced from any flat or nested object (nested keys joined by dots, array items by [index]) or FormData parses back to the same fields, names, files and bytes with a boundary that matches the Content-Type header. The header handler runs once before the body, the data handler sees every decoded chunk in order; a handler that returns true ends the transfer: the connection closes, no handler runs again and the result holds the bytes received before. A connection that is refused, closed, reset, truncated, corrupt or slower than timeout rejects exactly once, with an Error or with the failed result carrying one, and never resolves or throws elsewhere. No field value, not even one holding the boundaries of earlier bodies, can end a part: boundaries differ from body to body. After a timeout the connection closes, too. A handler that throws ends the transfer likewise, and the call rejects with its error.',
  ['inputs', 'fault_sequences'], 'all field sets and all stop points', 'No tests run offline.',
  pk('request', 'request/formData.ts', 'request/request.ts'), [['part writer', 'formData.ts']], ['parsed multipart body, settlement']);
P('Q04', 'DNS and public IP lookups return what the service answered, per host',
  'queryDNS asks the service once per requested name (at least) and returns an object with exactly the requested names, each with the addresses answered for it in order, and an empty list where the service does not answer with status 200; concurrent lookups never mix. publicIP returns the address, city id and GBK-decoded city name of the answer and rejects for any other status or format.',
  ['inputs', 'schedules'], 'all host lists and answers', 'No tests run offline.',
  pk('request', 'dns/queryDNS.ts', 'ip/publicIP.ts'), [['per-host loop', 'dns/queryDNS.ts'], ['answer parsing', 'ip/publicIP.ts']], ['returned objects, requests seen by a stand-in service']);

/* ---------------------------------------------------------------- path / term ---- */
P('H01', 'Path helpers classify and normalise without changing what a path denotes',
  'isWindowsPath accepts exactly the paths made of an optional \\\\?\\ prefix, a drive letter and colon (or . or ..), and backslash-separated names that are not empty, ., reserved (CON, PRN, AUX, NUL, COM1-9, LPT1-9 as whole names), too long (limit minus 12), ending in a space or period or holding one of <>:"/|?*, within 260 characters (32767 when extended); isWindowsExtendedLengthPath accepts exactly such extended-limit paths with the prefix; unifiedSeparator turns every backslash into / except in those, idempotently; all answer quickly for any length. normalize expands a leading ~ to the home folder, whatever characters it holds, before resolving . and .., and gives the platform\'s normal form, which denotes the same place, idempotently.',
  ['inputs'], 'all path strings', 'Examples only.',
  pk('path', 'isWindowsPath.ts', 'unifiedSeparator.ts', 'normalize.ts', 'isWindowsExtendedLengthPath.ts'), [['regular expressions', 'packages/path/src/*.ts']], ['returned strings']);
P('T01', 'Terminal styling is exact, balanced and leaves the text intact',
  'For every text and option set fontColor wraps the unchanged text in the escape codes of exactly the requested colours and styles and resets exactly those, the colour-code functions accept exactly the documented names and 0..255 values and emit the ANSI code they denote, and cursor/erase/scroll sequences encode their arguments.',
  ['inputs', 'configurations'], 'all texts, colours, style combinations and numeric codes', 'Examples only.',
  pk('term', 'fontColor.ts', 'ansiFormat.ts', 'colorCode8bit.ts', 'colorCode24bit.ts', 'colorNameCode3bit.ts', 'colorNameCode8bit.ts', 'colorNameCode24bit.ts', 'sequence'), [['code tables', 'term/src/*.ts']], ['produced strings interpreted by a small terminal model']);
P('T02', 'ProgressBar shows the true progress and restores the cursor',
  'For any total and any sequence of write, pushWrite and end calls, every printed line replaces the previous one on the same terminal line and shows the number of pushes done and the matching (rounded down) percentage and bar, push counts never skip or repeat, completion is reported and the bar ended exactly when the count reaches the total, and end clears the line and shows the cursor again if it was hidden.',
  ['histories', 'configurations'], 'all call sequences, totals and display options', 'Not tested.',
  pk('term', 'progressBar.ts'), [['index and reset', 'progressBar.ts']], ['bytes written to stdout']);
P('T03', 'format and print render every supplied field',
  'For every info object and option set format returns text that contains the title, name, code, message (texts) and inspected data it was given, unaltered and in property order, shows or omits title, dividers, date and the caller\'s stack as configured, and printInfo, printWarn and printError write exactly one such text per call to the console.',
  ['inputs', 'configurations'], 'all info objects and options', 'Few examples.',
  pk('term', 'format.ts', 'print.ts'), [['makeInfo', 'format.ts']], ['returned text']);

P('T04', 'readByQuestion shows the question and resolves with exactly the line typed',
  'However the answer arrives (any chunking of its bytes, any line end), readByQuestion writes the message unchanged, resolves once, only after the line is complete, with that line trimmed, and releases standard input so that following questions work the same way.',
  ['inputs', 'histories'], 'all messages, answers, chunkings and sequences of questions', 'Not tested.',
  pk('term', 'readByQuestion.ts'), [['question', 'readByQuestion.ts']], ['bytes written and resolution of the promise']);

/* ---------------------------------------------------------------- types / asserts ---- */
P('Y01', 'Type predicates decide membership correctly for every kind of value',
  'Each is* predicate of the types package returns true exactly for the values its documentation describes, over all JavaScript value kinds (primitives, boxed values, subclasses, proxies, null-prototype and cross-realm objects, sparse arrays, boundary numbers), and returns a real boolean without throwing or modifying the value.',
  ['inputs'], 'all JavaScript values', 'Tests list examples per predicate; cross-kind, cross-realm and boundary combinations are unbounded.',
  ['packages/types/src'], [['typeof and tag comparison', 'packages/types/src/type/getTag.ts']], ['predicate verdicts vs. independent classifier']);
P('Y02', 'assertX throws a TypeError exactly when isX is false',
  'For every predicate isX in the types package the matching assertX returns normally exactly for the values (and extra arguments) isX accepts and otherwise throws a TypeError whose message names the variable, for every value kind.',
  ['inputs'], 'all assert functions, values and variable names', 'The asserts package has no tests here.',
  ['packages/asserts/src'], [['typeGuard', 'packages/asserts/src/constants/typeGuard.ts']], ['throw/no-throw vs. predicate verdict']);
P('Y03', 'Library calls never modify arguments they do not document as modified',
  'Across the pure helpers of every package, everything reachable from the arguments passed in (arrays, objects, maps, sets, buffers, option objects, frozen or not; regular expressions including their lastIndex, except for helpers that hand a sticky expression or one not at rest to String.replace/match) is unchanged after the call - same keys, descriptors, identities, contents - so calling twice with the same arguments gives the same answer. Helpers documented to modify an argument (deleteAttrs, copyAttrs, in-place sorts, move, shuffle) are excluded.',
  ['inputs', 'histories'], 'all pure helpers and argument values', 'Tests check return values only.',
  ['packages'], [['no in-place mutation', 'packages/*/src']], ['deep snapshots before and after']);
