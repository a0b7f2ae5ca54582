import json
RT="runtime monitoring of the real code: randomized workloads judged by "
T={
"C01":(RT+"an independent evaluator of typed matcher expressions","exploration","Random matchers, models, rule sets and requests through the public API; every decision compared with full evaluation over all rules. Sampling, not exhaustive; expressions are well-typed."),
"C02":(RT+"an independent evaluator (multiset of matching rules)","exploration","Filter and RangeMatches with model and ad-hoc matchers on permission and grouping policies, compared as multisets. Sampling."),
"C03":(RT+"a fresh twin enforcer and a reference rule set","exploration","Edit/clear/reload histories with requests in between; answers compared with a fresh enforcer built from the surviving rules. Sampling of histories."),
"C04":(RT+"a reference set of string lists","exploration","Adversarial field contents, add/remove/list/distinct and aliasing attempts compared with a mathematical set. Sampling."),
"C05":(RT+"a reference merge of effects","exploration","All effect expressions, exhaustive short effect sequences through the effector API plus random rule sets through enforcers."),
"C06":(RT+"an error/deny oracle under injected faults","exploration","Invalid requests, matchers, models, rules, failing and panicking functions; no panic, no allow, error reported, later valid answers unchanged."),
"C07":(RT+"a reference reachability relation","exploration","Random link histories with cycles, diamonds and long chains; HasLink, GetRoles, GetUsers, Range and edit results compared."),
"C08":(RT+"a reference link store per domain path","exploration","Link histories across domains and subdomains with confusable names; all other domains observed after each edit."),
"C09":(RT+"a reference relation extended by pattern matches","exploration","Histories of links, patterns, queries and matcher changes for four pattern languages."),
"C10":(RT+"a reference model of domain patterns","exploration","Histories of explicit and inherited links in nested domain paths, domains created before or after patterns."),
"C11":(RT+"twins, of which only one is asked","exploration","Two enforcers or role managers get the same edits, one also answers many queries; complete observable state compared."),
"C12":("race detector plus sequential-answer oracle under concurrent queries","exploration","Race-instrumented build, many goroutines with injected yields; every concurrent answer compared with the sequential one. Covers observed schedules only."),
"C13":(RT+"a trace oracle over recorded storage operations","exploration","Recording adapters (single, batch, both); order, exactly-once and final equality checked after each step."),
"C14":("storage fault enumeration with a trace and state oracle","fault_enumeration","Adapter failures and panics enumerated over every operation of each history; queue, model and delivered operations compared with a reference."),
"C15":(RT+"a round-trip oracle on policy files","exploration","Adversarial rule sets saved and loaded by fresh adapters, edits through the adapter, hand-written and malformed files."),
"C16":("crash and I/O fault enumeration on saving a policy file","fault_enumeration","A child process that saves or edits is killed at, and given an error from, every file system call it makes (strace fault injection), plus file size and descriptor limits and failing rule sources; the file must hold the complete old or new rules."),
"C17":(RT+"a round-trip oracle and twin models","exploration","Random models rendered, reloaded and edited; decisions and definitions compared with a freshly defined model."),
"C18":(RT+"independent reference matchers for the pattern languages","exploration","Exhaustive small alphabets and random paths, regexes, globs, addresses; same answers as function, role and domain matcher."),
"C19":("race detector, reference LRU and linearizability checking (porcupine)","exploration","Sequential histories against a reference LRU, concurrent histories recorded and checked for linearizability, weak pointers for eviction."),
"C20":(RT+"a log hook compared with returned decisions","exploration","Every entry captured by a log hook and compared one-to-one with the decisions returned."),
"C21":(RT+"a visit-count oracle","exploration","All iteration APIs with stops at every position; visits compared with the complete set."),
"C22":(RT+"twin models defined with the selected parts","exploration","Random selections per request by key, text or object; decision compared with a model defined that way, later requests with defaults."),
"C23":(RT+"an evaluator that inlines the conditions","exploration","Random conditions in rules, attribute requests, invalid conditions; compared with inlined evaluation per rule."),
"C24":("differential runtime monitoring against Casbin","exploration","21 kinds of models plus generated ones, random rules, edits and requests decided by both libraries."),
"C25":("race detector plus per-tenant reference oracles under interleaving","exploration","Several enforcers, role managers and storages interleaved or in parallel, each judged by its own reference; functions replaced and removed."),
"C26":(RT+"a trace oracle over recorded events","exploration","Listeners record every event and observe the state when called; compared with the reference sequence of effective edits."),
"C27":(RT+"a reference model of storage connections","exploration","Random histories of enabling, disabling, exchanging adapters and models, loading, saving; every adapter's received operations compared."),
"C28":("resource monitoring (live heap, goroutines, descriptors, allocations) over long query runs","exploration","Footprint after a warm-up compared with the footprint after thousands of fresh queries; growth must persist in proportion over three rounds to count."),
"C30":(RT+"a reference of the components currently set","exploration","Random histories of exchanging policies, role managers, matchers, effectors, definitions and functions (built-in and foreign implementations, shared between models); decisions, listings and the calls the components receive compared with the reference."),
"C31":(RT+"an evaluation bound computed from the rules","exploration","Counting matching functions and role managers in random matchers; calls per request compared with the number of distinct field combinations that reach each condition."),
"C29":(RT+"a twin edited rule by rule","exploration","Random batches with duplicates, invalid elements and mixed keys compared with one-by-one edits on rules, decisions, events and storage."),
}
checks=[]
for i in sorted(T):
    t,l,n=T[i]
    checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough","technique":t,"level":l,"level_note":n})
json.dump({"version":1,"setup_cmd":"bash run.sh setup","checks":checks,"not_applicable":[]},open('/verif/MANIFEST.json','w'),indent=1)
