export const notApplicable = {};
export const notes = {
  F01: { technique: 'online monitor of task start/settle events and slot use, seeded settle orders over deferred tasks' },
  F02: { technique: 'fault injection per attempt with an event-log oracle (attempts, callbacks, rejection) on a virtual clock' },
  F03: { technique: 'fault-script injection with an event-order oracle and waits measured on a virtual clock' },
  F04: { technique: 'history checking against a per-key reference model under seeded interleavings on a virtual clock' },
  F05: { technique: 'history checking against a reference cache model on a virtual clock' },
  F06: { technique: 'conservation monitor: deliveries checked against the push history under seeded settle orders' },
  F07: { technique: 'virtual-clock monitor of start/settle times and of resolved durations, seeded entropy with extremes' },
  F11: { technique: 'event-loop monitor: ticks, timers and errors observed in a stand-in platform with each scheduling mechanism; printed text compared with an independent clock' },
  F10: { technique: 'outcome monitor plus process-level unhandled-rejection monitor under seeded completion orders' },
  F08: { technique: 'call histories (including re-entrant and throwing callbacks) judged by a call-count model' },
  F09: { technique: 'recorded stage calls (order, this, arguments) judged by a reference composition' },
  U01: { technique: 'graph comparison (structure, sharing, detachment by mutation) of the copy and a source snapshot' },
  U02: { technique: 'round trip: the printed text is evaluated in a fresh context and compared as a graph' },
  U03: { technique: 'comparison with reflection (Reflect.ownKeys over the prototype chain) on random objects' },
  U04: { technique: 'behaviour comparison of original and copy (calls, yields, accessors, content) on generated function sources and objects' },
  U05: { technique: 'round trip by evaluation, call monitors on serializer methods and a timer monitor' },
  U06: { technique: 'probes run in processes with different stack sizes; real calls with the reported number of arguments as oracle' },
  A01: { technique: 'conservation and order monitors over partitions of random arrays' },
  A02: { technique: 'conservation monitor and parent-relation oracle over random forests in random input order' },
  A03: { technique: 'recorded visit log (index, order, overlap) judged by a reference iteration, virtual scheduling of async callbacks' },
  A04: { technique: 'brute-force definitions as oracle over random arrays' },
  N01: { technique: 'an independent reader turns the written amount back into digits' },
  N02: { technique: 'scripted entropy (all extremes) with range and reachability monitors' },
  N03: { technique: 'exact BigInt/decimal arithmetic as oracle' },
  O01: { technique: 'round trip plus evaluation of the generated key text against direct property access' },
  O02: { technique: 'reflection-based reference transformations with descriptor comparison' },
  O03: { technique: 'JSON.stringify (on sorted or cut input) as differential oracle' },
  C01: { technique: 'independent RFC 6265 reader judges created cookies; created-then-parsed round trips' },
  C02: { technique: 'join/split round trips over generated Set-Cookie headers' },
  R01: { technique: 'String.prototype.matchAll as differential oracle, plus a monitor of the pattern state' },
  R02: { technique: 'grammar-driven generation of members and near-members with independent recognisers (net.isIP, URL, decodeURIComponent)' },
  R03: { technique: 'Unicode script properties of every code point as oracle, at every position' },
  R04: { technique: 'Unicode properties of every code point as oracle, at every position of random texts' },
  S01: { technique: 'TextEncoder/Buffer as differential oracle over all code point classes' },
  S02: { technique: 'reference trimming by code unit sets, complement monitor (only selected characters vanish)' },
  S03: { technique: 'round trips and an independent entity decoder' },
  S04: { technique: 'indexOf-based reference searches' },
  S05: { technique: 'the produced expression is run over the literal and mutants of it' },
  S06: { technique: 'untouched-text monitor: text outside the requested rewrite is compared verbatim with a reference parse' },
  X01: { technique: 'before/after file-tree snapshots judged by a reference copy; runs as an unprivileged user in a scratch folder' },
  X02: { technique: 'before/after file-tree snapshots (also behind links); runs as an unprivileged user in a scratch folder' },
  X03: { technique: 'byte comparison as oracle, descriptor-leak monitor, injected read faults' },
  X04: { technique: 'reference line splitter over the same bytes, chunk boundaries varied, descriptor monitor' },
  X05: { technique: 'lstat-based reference walk of generated trees' },
  X07: { technique: 'command monitor (recording PowerShell stand-in) with listings compared against an independent walk' },
  X06: { technique: 'write-then-read histories judged by raw fs reads' },
  P01: { technique: 'a real child process reports its argv, compared with the arguments given' },
  P02: { technique: 'real children with scripted output and exits; recorded bytes and outcomes compared' },
  K01: { technique: 'scripted process tables and real process trees; recorded signals judged by a reference tree walk' },
  K02: { technique: 'scripted command outputs (stand-ins record the command) judged against the scripted truth' },
  Q01: { technique: 'a loopback server records every byte received and scripts the response; both ends compared' },
  Q02: { technique: 'loopback servers log each hop; an oracle follows the redirect rules over the log' },
  Q03: { technique: 'independent multipart reader on the server side; handler call log and settle-once monitor' },
  Q04: { technique: 'loopback DNS-over-HTTPS stand-ins with scripted answers, per-host comparison' },
  H01: { technique: 'independent path resolver as oracle over generated path texts, time monitor for blow-up' },
  T01: { technique: 'a terminal model interprets the sequences and compares the resulting attributes and screen' },
  T02: { technique: 'a terminal model replays every frame; shown progress and cursor state compared with the pushes' },
  T03: { technique: 'recorded output parsed back into fields and compared with the supplied ones' },
  T04: { technique: 'scripted standard input in arbitrary chunks; prompt bytes and settle-once monitor' },
  Y01: { technique: 'independent classifiers (node:util brands, labels by construction, exact arithmetic) over a catalogue of value kinds' },
  Y02: { technique: 'outcome of every assertion compared with the verdict of its predicate over the same catalogue' },
  Y03: { technique: 'deep record of every reachable argument object before and after repeated calls' },
};
