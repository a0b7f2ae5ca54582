import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state,obs):
    M={"crash points":"crash_points","faults":"fault_sequences"}
    over=[M.get(o,o) for o in over]
    mech=[dict(name=m,where=files[min(i,len(files)-1)]) for i,m in enumerate(mech)]
    state=[dict(name=s,meaning="state the property depends on",where=files[0]) for s in state if s!="none"]
    obs=[obs]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=mech,state=state,observe_at=obs,hook_needed=None)))
prop("C01","A decision is what evaluating the matcher on every rule yields",
"For every model, rule set and request, the answer to a request equals the answer obtained by evaluating the complete matcher expression once for each stored rule (once with an all-empty rule when the policy holds no rules) and merging the effects of the matching rules with the policy effect. The way a matcher is written - conjunctions, nested or multiple alternatives, brackets, negation, function calls, set membership, arithmetic, conditional expressions, literals of any content, order of conditions, and any length or depth of nesting - never changes the answer as long as its logical meaning is the same, and no rule is overlooked or consulted in place of another because of the internal index.",
["inputs"],"all matcher expressions built from the supported operators, all rule sets and all requests",
"The matcher is compiled into a tree of stages that indexes rules by the fields each stage reads; tests fix about twenty matchers with a handful of rules, while the answer has to be right for every expression shape and every sharing of field values between rules.",
["model/defs/matcher_def.go","model/matcher/matcher.go","model/model.go","enforcer.go"],["staged matcher compilation","rule index per stage","effect merge"],["matcher tree","policy rule map"],"Enforcer.Enforce return value against a naive rule-by-rule evaluator")
prop("C02","Queries for matching rules return exactly the matching rules",
"Filtering or iterating over matching rules yields exactly the stored rules for which the matcher holds, each of them once and complete with its policy key, and nothing else, in particular no rule that does not exist when the policy is empty. This holds for permission rules and for grouping rules (with their user, role and domain fields), for the model's own matcher and for ad-hoc matchers with or without request values.",
["inputs"],"all matchers, rule sets (permission and grouping rules) and request values",
"Exactness is a statement about all rules at once (no omission, no duplicate, no phantom); example tests compare a few fixed lists.",
["enforcer.go","context.go","model/matcher/matcher.go","model/model.go"],["matching rule iteration","ad-hoc matcher construction"],["matcher tree","policy rule map","role links"],"results of Filter and RangeMatches against a naive evaluator over the rules")
prop("C03","Answers depend only on the current rules, not on the history",
"After any sequence of adding, removing, clearing and reloading rules, with requests in between, every decision, filter result and rule listing is the same as in a fresh enforcer that was given just the surviving rules, in any order. In particular a removed or cleared rule never influences an answer again and a rule that was removed and added again counts as if it had never been gone.",
["histories"],"all sequences of rule edits, clears and requests; all insertion orders",
"The index is maintained incrementally by events; stale or missing index entries need particular add/remove/clear sequences over rules that share some but not all fields.",
["model/matcher/matcher.go","model/policy/policy.go","rbac/role_policy.go","model/model.go"],["incremental index maintenance through rule events","clear event"],["matcher tree","policy rule map","role graph"],"Enforce, Filter and RangeRules of a long-lived enforcer compared with a freshly built one")
prop("C04","The stored rules are an exact set of rules",
"The stored rules behave like a mathematical set of lists of strings: adding reports true exactly if the rule was absent, removing reports true exactly if it was present, two rules are the same only if all of their fields are equal whatever characters they contain, and listing yields every stored rule exactly once, in full, under the policy key it was added with. Grouping rules and the rules of different policy keys are separate sets, the distinct values of a selection of columns are exactly those that occur in stored rules, each once, and the enforcer does not share slices with its callers: changing a rule slice after adding it, or one returned by a filter or a rule listing, does not change the stored rules.",
["inputs","histories"],"all sequences of additions and removals of rules with arbitrary field contents",
"Set semantics must hold for adversarial field contents (separators, escapes, empty fields) and for long edit sequences; tests add a few plain rules.",
["model/policy/policy.go","util/util.go","model/model.go","rbac/role_policy.go","rbac/role_manager.go","rbac/domain_manager.go"],["rule hashing","add/remove return values"],["policy rule map","explicit role links"],"AddRule/RemoveRule return values and RangeRules against a reference set")
prop("C05","Effects of matching rules combine as the policy effect says",
"With the allow-override effect a request is allowed exactly if some matching rule allows; with the deny-override effect exactly if no matching rule denies; with allow-and-no-deny exactly if some matching rule allows and none denies - independent of the number and order of the matching rules and of where rules with an unknown effect value appear. A rule whose effect field is empty or whose definition has no effect field counts as allow, an effect value other than allow or deny counts as neither, a rule which the effector reports as responsible is a matching rule with that effect, and an unsupported policy effect yields an error and never an allow.",
["inputs","schedules"],"all multisets and orders of rule effects, all three supported effects and unsupported ones",
"Rules are visited in random map order and the effector stops early, so order dependence only shows over many orders of mixed effects.",
["model/effector/default_effector.go","model/eft/eft.go","model/defs/defs.go","enforcer.go"],["incremental effect merge with early stop"],["effects collected during one request"],"Enforce return value and direct MergeEffects calls for enumerated effect sequences")
prop("C06","Errors never grant access and never crash or poison the enforcer",
"Whenever a request, a rule edit or a model cannot be processed - missing or surplus request values, wrong value types, failing or panicking matching functions, malformed matchers or patterns, unknown definitions, options and adapters of unsupported types, incomplete models or rules - the caller gets an error together with a deny (or with no change of the rules), never an allow and never a panic. Errors are also reported when they occur deep inside the evaluation of the matcher, and afterwards the enforcer keeps giving correct answers to valid requests.",
["inputs","faults"],"all invalid requests, rules, matchers, models and failing matching functions",
"The space of malformed inputs and of points at which evaluation can fail is unbounded; tests check a few error strings.",
["enforcer.go","context.go","model/matcher/matcher.go","model/defs/matcher_def.go","model/defs/defs.go","model/model.go","rbac/role_policy.go"],["error propagation through staged evaluation","panic containment"],["matcher tree","policy rule map"],"return values of the API under injected errors, panics and malformed input")
prop("C07","Role inheritance is exactly reachability over the existing links",
"A user has a role exactly if a chain of currently existing links leads from the user to the role, or both are the same name; chains of up to nine links are followed (up to seven within a domain, six within a subdomain; for a role manager of another depth correspondingly more or fewer), longer ones are not, cycles and diamonds terminate and do no harm, and adding or removing links takes effect immediately. The direct roles of a user and the direct users of a role are exactly those connected by one existing link, adding or deleting a link reports whether the set of links changed, and listing the links yields each of them once.",
["inputs","histories"],"all link graphs and all sequences of link additions and removals",
"Correctness on all graphs - cycles, diamonds, depth limits, deletion of one of several parallel paths - cannot be enumerated by examples.",
["rbac/role_manager.go","rbac/role.go","rbac/role_policy.go","rbac/role_manager_api.go"],["bounded breadth-first search","link bookkeeping in both directions"],["role graph"],"HasLink/GetRoles/GetUsers/Range and g() in matchers against graph reachability")
prop("C08","Links of one domain or subdomain never apply in another",
"Without domain patterns, a link that was added for a domain (or a path of domain and subdomain) applies only to queries for exactly the same domain path; links without a domain, of a parent domain and of a subdomain are all separate, whatever the names look like. Adding and removing links in one domain never changes the answers for another, and the listed domains of a user are exactly those in which the user has or is a role.",
["inputs","histories"],"all domain paths, names and sequences of link edits",
"Isolation is a non-interference property over all pairs of domains and all histories; tests look at two domains.",
["rbac/domain_manager.go","rbac/role_manager.go","rbac/role_manager_api.go"],["tree of role managers per domain path"],["domain tree"],"HasLink/GetRoles/GetUsers/GetDomains/GetAllDomains and g(_, _, dom) against one reference graph per domain path")
prop("C09","Role patterns stand for exactly the names they match",
"If a role matcher is set, a link from or to a pattern holds for exactly those names which the pattern matches, so that inheritance equals reachability over the links extended by pattern matches, no matter in which order links, pattern links and queries happen, when the matcher was set, and which of them were removed again. Only names that are part of a link or of the question connect patterns; names that match no pattern and queries for names that were never seen before are unaffected. Direct roles and users are listed once each, patterns included.",
["inputs","histories"],"all sets of plain and pattern links (patterns that do not match each other) and all orders of edits and queries",
"Matches are materialised when names first appear; errors depend on the order of creation, deletion and querying.",
["rbac/role_manager.go","rbac/role.go","util/builtin_operators.go"],["materialised pattern matches","match cache","temporary roles in queries"],["role graph with matches"],"HasLink/GetRoles/GetUsers against reachability over the pattern-extended graph")
prop("C10","Domain patterns apply to exactly the domains they match",
"If a domain matcher is set, a link in a domain pattern applies in every matching domain, also in nested domain paths matched component by component, whether the domain existed before or after the link was added, and in no other domain. Explicit links and links inherited from one or more patterns are counted separately: removing one never removes the other, adding reports whether the explicit link is new, and listing or saving the rules yields exactly the explicit links in the domains they were added to.",
["inputs","histories"],"all sets of links in plain and pattern domains, all orders of edits, queries and matcher changes",
"Inherited links are copied between role managers when domains appear; the bookkeeping is only wrong for particular orders of additions and removals.",
["rbac/domain_manager.go","rbac/role_manager.go","rbac/role.go"],["propagation of pattern links to matching domains","explicit versus inherited bookkeeping"],["domain tree","inherited link counts"],"HasLink/GetRoles/Range against a reference that stores explicit links and matches domains per query")
prop("C11","Asking never changes an answer",
"Requests, filters, role queries, listings and rendering the model are read-only: executing any number of them, also for unknown users, roles or domains, for patterns, with ad-hoc matchers or with invalid input, leaves the stored rules, the stored links and domains and all later answers unchanged. They also emit no rule events and never modify request values, rules or slices of the caller.",
["histories"],"all sequences of queries interleaved with edits",
"Query code creates temporary roles, caches and index nodes; leaks show only in later, different queries.",
["rbac/role_manager.go","rbac/domain_manager.go","enforcer.go","context.go","model/matcher/matcher.go"],["temporary roles during queries","match caches"],["role graph","domain tree","matcher tree"],"twin enforcers, one of which receives extra queries; observable state compared after every step")
prop("C12","Concurrent queries are race-free and get the sequential answers",
"While no rules are edited, any number of goroutines may issue requests, filters, listings and role queries on the same enforcer or role manager, including eval() rules, role and domain patterns, ad-hoc matchers and unknown names. There is no data race, no deadlock and no panic, and every call returns exactly what it returns when executed alone.",
["schedules"],"all interleavings of read-only calls",
"Existing tests are single-threaded; races and interference need overlapping calls and depend on the schedule.",
["enforcer.go","model/matcher/matcher.go","rbac/role_manager.go","rbac/domain_manager.go","util/cache.go","model/fm/function.go","log/log.go"],["per-request evaluation state","mutex around role queries","synchronised match cache"],["shared caches and role graph"],"Go race detector plus comparison of every concurrent answer with the sequential answer")
prop("C13","The storage receives exactly the effective edits, in order, once",
"With autosave every effective addition or removal reaches the storage adapter immediately, without autosave upon flush, each exactly once and in the order of execution; AddWait(n) postpones that until the n-th following effective edit or the next flush. Edits without effect as well as loading and saving never reach it. After a flush the stored rule set equals the rules of the model, whether the adapter stores rules one by one or in batches, and flushing again sends nothing.",
["histories"],"all sequences of edits, batch edits, flushes, loads, saves and autosave switches, for simple and batch adapters",
"Exactly-once and ordering are properties of whole histories, in particular alternating add/remove runs in batches.",
["storage/controller.go","storage/adapter.go","enforcer.go","model/model.go"],["queue of operations","batch grouping","autosave"],["operation queue","adapter contents"],"calls recorded by instrumented adapters against a reference log and rule set")
prop("C14","Storage failures lose nothing and are reported",
"If the storage adapter fails at any point, the failing flush, autosaved edit or batch edit returns the error instead of panicking, the rules of the model stay as edited, and no pending operation is lost, duplicated or reordered. As soon as the adapter works again, the next flush (or autosaved edit) delivers the remaining operations, after which the storage equals the model.",
["faults","histories"],"every failing adapter call (also several in a row) in every edit sequence, simple and batch adapters, autosave on and off",
"Tests never let an adapter fail; every position of a failure in the operation sequence is a different history.",
["storage/controller.go","enforcer.go"],["queue kept until an operation succeeded","autosave error reporting"],["operation queue","adapter contents"],"fault-injecting adapters; call log, return values and final contents against a reference")
prop("C15","Saving to a policy file and loading it again preserves every rule",
"Any set of rules that is saved by the file adapter is read back unchanged by a fresh load, whatever the fields contain - separators, quotes, line breaks, leading or trailing blanks, comment characters, empty fields, very long values, any Unicode text. Adding or removing single rules or batches through the file adapter edits exactly these rules of the file, plain files with blank lines and comments load as written, and a missing or malformed file is reported as an error.",
["inputs","histories"],"all rule sets with arbitrary field contents and all sequences of file adapter calls",
"Round trip has to hold for every string; the tests store a few identifier-like fields.",
["storage/adapter/fileadapter.go","enforcer.go"],["CSV reading and writing"],["policy file"],"rules loaded by a fresh adapter against the rules that were saved")
prop("C16","An interrupted or failed save never damages the policy file",
"If saving a policy file is interrupted at any point (process killed, machine switched off) or fails (disk full, missing permission or directory, rule source that fails half way), the file afterwards contains either the complete old or the complete new rule set, never a mixture, a truncated or an empty one. A failed save reports an error, does not leave temporary files behind or leak file descriptors, and a later save succeeds. In every case an existing file keeps its permissions and a symbolic link stays one.",
["crash points","faults"],"every crash point and every I/O fault during a save",
"Tests never interrupt a save; each prefix of the write sequence is a different crash state.",
["storage/adapter/fileadapter.go"],["temporary file and atomic replacement"],["policy file"],"file contents after killing the process at varying points and after injected write faults (file size limits, permissions)")
prop("C17","Model text round-trips and definitions can be edited",
"Rendering a model and loading the rendered text yields an equivalent model with the same definitions and the same decisions, and rendering is stable from then on. Setting a definition under a key replaces the definition of that key only, removing it makes requests that need it fail with an error, and unknown sections, blanks and comments in the text do not matter.",
["inputs","histories"],"all models and all sequences of definition edits",
"Equivalence must hold for every model text; tests load fixed files.",
["model/model.go","model/handlers.go","model/defs/defs.go","model/defs/matcher_def.go"],["model parsing and rendering","definition tables"],["definition maps"],"String/LoadModelFromText/SetDef/RemoveDef and decisions of both models")
prop("C18","Matching functions implement their documented pattern languages",
"pathMatch and pathMatch2 accept a path exactly if it is matched segment by segment, where :name (or {name}) stands for exactly one arbitrary segment, * for one or more segments and everything else for itself; regexMatch, globMatch and ipMatch agree with regular expressions, shell globs on paths and IP addresses or CIDR ranges. They always terminate, give the same answer as functions inside matchers, as role or domain matchers and when called directly, and report wrong argument counts or types as errors.",
["inputs"],"all strings and patterns",
"The path matcher is a hand-written recursive parser with special cases at the ends of path and pattern; tests list about 60 pairs.",
["util/builtin_operators.go","model/fm/function.go"],["recursive segment matching","argument validation"],["none"],"function results against independent reference matchers (regular expressions, dynamic programming, net/netip)")
prop("C19","The cache behaves like a least-recently-used map",
"For every sequence of puts and gets the cache returns exactly the value most recently stored under a key, or nothing if the key was never stored or has been evicted; it never holds more than its capacity and evicts the entry that was used least recently. The synchronised variant does so for concurrent callers without data races, so that every concurrent history is explainable by some sequential order.",
["inputs","schedules"],"all operation sequences, capacities and interleavings",
"Eviction order depends on the whole access history, linearizability on the schedule; the tests run two short sequences.",
["util/cache.go"],["hash map with doubly linked list","lock around every access"],["cache entries"],"Get results against a reference model; recorded concurrent histories checked for linearizability under the race detector")
prop("C20","The audit log records every decision as it was made",
"With a logger set, every request that is decided produces exactly one entry which names the request values and the decision that was returned to the caller. Requests that fail with an error are never logged as allowed or denied, and neither logging nor its absence changes a decision.",
["inputs","histories"],"all requests and models",
"The log is evidence for auditors and must agree with the decisions for every request, not just on the happy path; tests look at one message.",
["enforcer.go","log/log.go"],["logging after the decision"],["log entries"],"entries captured by a logger hook against the decisions returned")
prop("C21","Iterations stop when told to and otherwise visit everything once",
"Iterating over matching rules, over all rules, over the rules of a policy or over role links calls the visitor once per element until the visitor returns false, and never again after that. Stopping early returns no error, changes nothing, and a complete iteration visits every element exactly once.",
["inputs"],"all rule sets, matchers and stopping points",
"A violation needs several policies, domains or matcher alternatives and a stop at a particular element.",
["enforcer.go","model/model.go","model/matcher/matcher.go","model/policy/policy.go","rbac/role_policy.go","rbac/domain_manager.go","rbac/role_manager.go"],["visitor callbacks through nested containers"],["none"],"number and order of visitor calls for every stopping point")
prop("C22","Options of one request affect that request only, in its entirety",
"A request can select another matcher, request definition or policy effect, by the key of a definition, by its text or as an object, and is then decided exactly as if the model had been defined with the selected parts; parts not selected come from the model's defaults. Models with several request, policy, matcher, effect or role definitions keep them apart, and a selection never affects any other request before, after or at the same time.",
["inputs","histories"],"all combinations of options, definitions and interleaved requests",
"The combinations of overrides, definition keys and request sequences are too many for examples, and leakage shows only in later requests.",
["context.go","enforcer.go","model/model.go","model/defs/defs.go"],["per-request context","definition lookup by key"],["definition maps"],"decisions with options against a model defined with these parts")
prop("C23","Rules with conditions in eval() are decided like inlined conditions",
"A rule whose field holds a condition evaluated by eval() matches a request exactly if the condition, written in place of eval(), is true for the request and for all fields of that same rule, including attributes of request objects. Each rule is judged by its own condition only, whatever other rules share its fields and whatever is evaluated at the same time, and an invalid condition is an error that never grants access.",
["inputs","histories"],"all rule conditions, requests with attributes and rule sets",
"Conditions are data, so every rule is a small program; tests have two of them.",
["model/matcher/matcher.go","model/defs/matcher_def.go"],["eval function bound to the rule under evaluation"],["matcher tree"],"Enforce/Filter against a reference evaluator that substitutes the condition")
prop("C24","FastAC decides like Casbin",
"For the supported kinds of models (ACL, with superuser, without users or resources, RBAC with roles, resource roles, domains and deny rules, ABAC with request attributes and eval(), in-operator, all supported effects) FastAC and Casbin give the same decision for the same model text, rules and request. This also holds after the same sequence of additions and removals of rules.",
["inputs","histories"],"all rule sets, edits and requests over the supported kinds of models",
"Compatibility with an independent implementation is a claim about all inputs; tests compare with fixed expectations.",
["enforcer.go","model/model.go","rbac/role_manager.go","rbac/domain_manager.go","model/effector/default_effector.go"],["same model language"],["whole enforcer"],"decisions of both engines for the same generated scenario")
prop("C25","Enforcers and models are independent of each other",
"Rules, links, functions, definitions, options and caches of one model or enforcer never influence another one in the same process, no matter how creation, edits and requests interleave. A function that is registered, replaced or removed affects exactly the models it was registered with, from the next request on, and leaves the built-in functions of other models intact.",
["histories"],"all interleavings of operations on several enforcers",
"Accidental sharing through package-level state is only visible when several instances are used in an interleaved way.",
["model/model.go","model/fm/function.go","model/fm/global.go","util/builtin_operators.go","rbac/domain_manager.go"],["per-model function table copied from defaults"],["function maps","global function map"],"each enforcer of an interleaved run against the same operations run alone")
prop("C26","Every effective change is announced exactly once",
"A listener on the model receives one event for each effective addition or removal of a rule - carrying the complete rule with its key - in the order of the changes, and none for edits without effect, failed edits or queries. When the listener runs the change is already visible in the rules, and a removed listener is not called again.",
["histories"],"all sequences of edits, queries and listener registrations",
"Exactly-once delivery is a property of whole histories including no-op and failing edits.",
["model/model.go","model/policy/policy.go","rbac/role_policy.go"],["event emission after effective edits"],["listeners"],"recorded events against the reference log of effective edits")
prop("C27","Enabling, disabling and exchanging storage behaves as documented",
"Edits reach the storage exactly while storage is enabled, and only the adapter and model that are currently set: exchanging the adapter or the model disconnects the old one and connects the new one, keeping the autosave setting. Enabling or disabling repeatedly has no additional effect, loading adds the stored rules without clearing or writing back, saving writes the rules of the current model, and an enforcer created with the path of a policy file loads that file and stores to it.",
["histories"],"all sequences of option changes, adapter and model exchanges, loads, saves and edits",
"Wiring errors appear only after particular sequences of lifecycle calls followed by edits.",
["enforcer.go","storage/controller.go","storage/adapter/fileadapter.go"],["listener registration of the storage controller"],["listeners","operation queue","adapter"],"calls recorded by several instrumented adapters against a reference state machine")
prop("C28","Requests leave nothing behind",
"Serving requests, filters and role queries does not accumulate memory, listeners, goroutines or open files, whether they use ad-hoc matchers, unknown names, patterns or invalid input; neither do rejected edits, edits without effect, nor rules and role links that were removed again, nor loading and saving. The cost of a later edit or request does not depend on how many queries were served before.",
["histories"],"all kinds of queries, arbitrarily often repeated",
"Leaks are invisible to functional tests and need long runs with a resource monitor.",
["context.go","enforcer.go","model/matcher/matcher.go","rbac/role_manager.go","rbac/domain_manager.go","util/cache.go"],["release of per-request matchers","temporary roles","bounded caches"],["heap","listeners"],"live heap, goroutines, file descriptors and policy listeners after warm-up and after many more queries")
prop("C29","A batch of edits equals the same edits one by one",
"Adding or removing a list of rules has exactly the effect of adding or removing its elements one after the other - on the rules, on decisions, on events and on the storage - including duplicates, rules that are already present or absent, and lists that mix permission and grouping rules. If an element is invalid, the error is returned, the elements before it remain effective and are stored, those after it are not applied, and autosave stays as configured.",
["inputs","histories"],"all lists of rules, including invalid elements at any position",
"The batch path toggles autosave and flushes at the end; its failure paths are not exercised by tests.",
["enforcer.go","storage/controller.go"],["batch edit with deferred flush"],["operation queue","policy rule map"],"state, events and adapter calls of batch edits against one-by-one edits on a twin")
prop("C30","Exchanged components take over completely and immediately",
"Policies, role managers, matchers, effectors, request definitions and functions that are set on a model - including the user's own implementations of these interfaces, possibly shared by several models - replace the previous ones from the next request or edit on. Requests decide with exactly the rules, links and functions of the components currently set, edits go to these components alone, and listings show their rules; replaced components neither influence the model any more nor are changed through it. A component that was set stays until it or its definition is replaced. An effector is asked once for every matching rule, with all effects so far, and once more at the end unless the decision was made.",
["inputs","histories"],"all sequences of exchanging components, edits and requests, for built-in and foreign implementations",
"The index of a matcher, the functions g and the listeners are all bound to components that can be exchanged later; tests never exchange one after rules were added.",
["model/model.go","model/handlers.go","enforcer.go","model/matcher/matcher.go"],["SetPolicy/SetRoleManager/SetMatcher/SetEffector/SetRequestDef/SetFunction","refreshMatchers"],["component maps of the model","matcher index","policy listeners"],"decisions, listings and calls received by foreign components against a reference of what is currently set")
prop("C31","The index limits the work of every request",
"A request evaluates a condition of its matcher only for rules which the conditions in front of it (in the same conjunction) did not exclude, and at most once for all the rules that agree in the policy fields which it and these conditions use; conditions that use no policy field and the last condition of a conjunction are evaluated at most once per remaining rule, alternatives each by themselves, and an empty policy counts as one empty rule. This holds for enforcing, filtering and iterating, for matchers of the model and of a request, and after any history of edits: rules that were removed cause no work.",
["inputs","histories"],"all matchers, rule sets, edit histories and requests",
"The indexing of policies is the main promise of the documentation, but results stay correct when it degenerates; only counting evaluations over many rule sets shows it.",
["model/matcher/matcher.go","model/defs/matcher_def.go","model/model.go"],["staged evaluation","index of the rules"],["matcher tree"],"calls of matching functions and role managers against a bound computed from the rules")
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p)+'\n')
import jsonschema,sys
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
print(json.dumps(sch)[:300])
for p in P:
    try: jsonschema.validate(p,sch)
    except Exception as e: print(p['id'],str(e)[:300])
