import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A decision equals the matcher evaluated on every rule, merged by the effect",
"For every model, rule set and well-formed request, the access decision equals the one obtained by evaluating the whole matcher expression on each stored rule separately and merging the effects of the rules that match. Splitting the matcher into stages and indexing the rules by field values never adds a match and never loses one, whatever the shape of the matcher (any nesting of and, or, parentheses, negation and conditionals) and whatever values the rules share. When no rule is stored the matcher is evaluated once against a rule of empty values.",
["inputs","programs","configurations"],"all matchers built from the supported operators, all rule sets, all requests whose evaluation does not fail",
"The tests pin a few dozen (model, rule, request) triples over a handful of matcher shapes with at most two or-branches; the index groups rules by field values and nests stages by operator structure, so a wrong split or grouping only shows for particular shapes and particular coincidences of rule values.",
["model/matcher/matcher.go","model/defs/matcher_def.go","enforcer.go"],
[("stage tree construction","model/defs/matcher_def.go: buildExprTree, nextOperator, tokensToExpr"),("rule index","model/matcher/matcher.go: addRuleHelper, rangeMatchesHelper"),("decision","enforcer.go: enforce")])
p("C02","Decisions depend only on the current rules, not on how they got there",
"After any sequence of rule additions, removals and clears, every decision and every query answers exactly as a fresh instance holding the same rules would. In particular a removed rule stops granting or denying at once, a rule added again works again, and the order of additions is irrelevant.",
["histories","inputs"],"all finite sequences of add, remove and clear over all rules, and all requests asked between and after them",
"The tests do at most a couple of additions and removals on fixed rules; stale index entries only matter when particular rules share field prefixes and are removed in particular orders.",
["model/matcher/matcher.go","model/policy/policy.go","rbac/role_policy.go"],
[("index maintenance on rule events","model/matcher/matcher.go: NewMatcher listeners, addRule, removeRule"),("rule set","model/policy/policy.go: AddRule, RemoveRule, Clear")])
p("C03","Policy rules form an exact set",
"Adding a rule reports true exactly when it was absent, removing a rule reports true exactly when it was present, and the rules listed afterwards are exactly those added and not since removed. Two rules that differ in any value, in the number of values, or in where one value ends and the next begins are different rules, whatever characters the values contain.",
["inputs","histories"],"all sequences of add, remove and list over rules with arbitrary string values",
"The tests use plain alphanumeric values; whether distinct rules can be confused depends on every possible value, including ones containing separators or empty strings.",
["model/policy/policy.go","model/model.go","util/util.go","enforcer.go"],
[("rule identity","util/util.go: Hash"),("rule map","model/policy/policy.go: AddRule, RemoveRule, Range")])
p("C04","Effect merging follows the declared effect for every list and order of effects",
"With allow-if-some-allow the outcome is allow exactly when some matching rule allows; with allow-unless-deny it is allow exactly when no matching rule denies; with allow-and-no-deny it is allow exactly when some matching rule allows and none denies. The outcome does not depend on the order in which matching rules are visited, and rules whose effect is neither allow nor deny change nothing.",
["inputs","schedules"],"all finite multisets of effects (allow, deny, neither), all visiting orders, all three supported effect expressions",
"The tests check a few fixed lists; rules are visited in randomised map order, so an order-dependent merge passes most runs.",
["model/effector/default_effector.go","enforcer.go","model/defs/defs.go"],
[("merge","model/effector/default_effector.go: MergeEffects"),("incremental merge loop","enforcer.go: enforce"),("rule effect","model/defs/defs.go: GetEft")])
p("C05","Errors during a decision surface and never become an allow",
"When evaluating the matcher on a rule fails, or a function called by the matcher reports an error, or the effect expression is not supported, the decision is not allow and an error is returned. This holds at whatever stage of the matcher and on whichever rule the failure happens, under every effect expression.",
["inputs","fault_sequences","programs"],"all matchers, all positions of the failing sub-expression, all rules on which it fails, all effect expressions",
"The tests only exercise failures at the first stage of a matcher or ignore the returned error; a swallowed error is visible only for particular stages and effects.",
["model/matcher/matcher.go","enforcer.go","model/effector/default_effector.go"],
[("error propagation across stages","model/matcher/matcher.go: rangeMatches, rangeMatchesHelper"),("effect errors","enforcer.go: enforce")])
p("C06","Role inheritance is exactly reachability over the current links",
"Without patterns, a user holds a role exactly when they are the same name or the role can be reached from the user over the links currently present, up to the hierarchy limit of the role manager. This holds for all graphs including cycles, diamonds and self-links, after any sequence of link additions, deletions and clears, and the reported added/removed results say whether the link was absent/present.",
["histories","inputs"],"all link histories over any names, all queries",
"The tests check one small tree and one deletion; deletion in graphs with shared intermediate roles and cycles and chains at the limit are not covered.",
["rbac/role_manager.go","rbac/role.go"],
[("reachability","rbac/role_manager.go: HasLink, hasLinkHelper"),("link bookkeeping","rbac/role.go: addRole, removeRole, rangeRoles")])
p("C07","Role links in one domain never leak into another",
"Without domain patterns, a role link added in one domain affects queries in exactly that domain (including its exact sub-domain path) and no other, and removing it in one domain leaves identical links of other domains in place.",
["inputs","histories"],"all link histories with any domain paths, all queries",
"The tests use two fixed domain names and one nested case; leaks depend on how names and nesting levels coincide.",
["rbac/domain_manager.go","rbac/role_policy.go"],
[("per-domain managers","rbac/domain_manager.go: getRoleManager, getDomain, AddLink, DeleteLink, HasLink")])
p("C08","Role patterns act as if every matching name had the link",
"With a role matcher set, a query answers as reachability in which a name also takes part in the links of every pattern that matches it, regardless of the order in which links, the matcher and queries were introduced. Links entered by the user are never lost, invented or changed by pattern matching, and deleting one withdraws exactly what it granted.",
["histories","inputs","configurations"],"all histories of link additions, deletions, matcher changes and queries over plain and pattern names",
"The tests build pattern graphs in one order and do not delete; the cached match relation between names and patterns depends on creation order.",
["rbac/role_manager.go","rbac/role.go"],
[("pattern links","rbac/role.go: addMatch, removeMatches, rangeRoles"),("match discovery","rbac/role_manager.go: getRole, rangeMatchingRoles, rangeMatchingPatterns, rebuild")])
p("C09","Domain patterns apply a link to every matching domain and nothing else",
"With a domain matcher set, a link added under a domain pattern holds in every domain the pattern matches, whether that domain was first used before or after the link, and is withdrawn by deleting it. Links entered explicitly for a domain remain stored, listed and effective until they themselves are deleted, also when a pattern grants the same link.",
["histories","inputs"],"all histories of link additions and deletions under plain domains and patterns, and of queries in any domain",
"The tests add in one order, never overlap explicit and pattern links, and never delete under a pattern.",
["rbac/domain_manager.go","rbac/role_manager.go"],
[("pattern propagation","rbac/domain_manager.go: AddLink, DeleteLink, getRoleManager, rangeMatchingRMs"),("derived link marking","rbac/role_manager.go: REDUNDANT_ROLE handling, rangeLinks")])
p("C10","Queries change nothing and can run in parallel",
"Deciding a request, filtering rules and asking role questions leave rules, links, definitions and every later answer unchanged, also for unknown names and domains and for queries that fail. Queries running at the same time on one instance neither race on shared memory nor influence each other's result.",
["schedules","inputs"],"all queries, all interleavings of two or more of them",
"The tests are sequential and never compare the state before and after a query; a race or a leftover temporary entry needs a particular interleaving or a particular unknown name.",
["rbac/role_manager.go","rbac/domain_manager.go","util/cache.go","model/matcher/matcher.go","enforcer.go"],
[("temporary roles","rbac/role_manager.go: HasLink, GetRoles, GetUsers"),("match cache","util/cache.go: SyncLRUCache"),("eval function binding","model/matcher/matcher.go: RangeMatches")])
p("C11","Filtering returns exactly the matching rules, once each",
"On a non-empty rule set, filtering returns every stored rule for which the given matcher holds exactly once, prefixed with its policy key, and nothing else, for policy rules and for grouping rules alike. Iteration stops when the callback asks for it, and the callback sees each rule unmodified.",
["inputs","programs"],"all matchers over policy or grouping rules, all rule sets, all requests, all early-stop points",
"The tests filter three fixed rule files with fixed matchers; duplicates and misses depend on matcher shape and shared values.",
["model/matcher/matcher.go","model/model.go","enforcer.go"],
[("range over matches","model/matcher/matcher.go: RangeMatches"),("key prefix","model/model.go: RangeMatches"),("collection","enforcer.go: FilterWithContext")])
p("C12","A flush makes the storage hold exactly the model's rules",
"When storage and model agree at the start, then after any sequence of successful rule changes followed by a flush, the storage holds exactly the model's rules, whether the adapter takes single rules or batches and whether saving is automatic, deferred or switched on and off in between. Changes reach the adapter once each, in the order they were made, and changes that changed nothing are not sent.",
["histories","configurations"],"all sequences of rule additions, removals, batch calls, autosave toggles and flushes, for both adapter kinds",
"The tests check fixed sequences of a few calls; lost or reordered operations depend on how additions, removals and toggles alternate.",
["storage/controller.go","enforcer.go","model/model.go"],
[("operation queue","storage/controller.go: addOp, flush, batchFlush, Flush, AddWait"),("change events","model/model.go: AddRule, RemoveRule")])
p("C13","A failing storage adapter loses and duplicates no change",
"When an adapter call fails during a flush, the error is reported and every change not yet accepted by the adapter stays pending in order, so that a later flush against a recovered adapter brings the storage to the model's rules. Changes the adapter already accepted are not sent again.",
["fault_sequences","histories"],"all operation sequences, all positions at which adapter calls fail, any number of failures before recovery",
"No test uses an adapter that fails.",
["storage/controller.go","enforcer.go"],
[("queue handling on error","storage/controller.go: flush, batchFlush")])
p("C14","Saving to a policy file and loading it back restores the same rules",
"For every set of rules that can be added to the model, saving the rules to a file and loading that file into an empty model of the same definitions yields exactly the same rules. This includes values with commas, quotes, leading, trailing or only spaces, comment characters and line breaks, empty values and long values.",
["inputs"],"all rule sets with arbitrary string values",
"The tests round-trip the sample files only, whose values are plain words.",
["storage/adapter/fileadapter.go"],
[("writing","storage/adapter/fileadapter.go: SavePolicy"),("parsing","storage/adapter/fileadapter.go: LoadPolicy, LoadPolicyLine")])
p("C15","A crash or I/O error while saving never destroys the stored policy",
"At every point at which the process may stop or a file operation may fail during a save or an incremental update of a policy file, the file holds either the complete previous rules or the complete new rules. A failed operation is reported as an error, and a save that reports success has stored the new rules.",
["crash_points","fault_sequences"],"all file operations issued by a save or update, each as crash point or failing operation, for all previous and new contents",
"No test interrupts or fails a save.",
["storage/adapter/fileadapter.go","util/util.go"],
[("file replacement","storage/adapter/fileadapter.go: getWriter, SavePolicy")])
p("C16","Incremental updates of a policy file are set operations on its rules",
"Adding or removing one or several rules through the file adapter leaves the file with exactly the previous rules plus or minus the given ones, without duplicates, for all rule values. Adding a rule already in the file or removing one that is not leaves the rules unchanged, and the result is the same whether rules are passed singly or in one batch.",
["inputs","histories"],"all previous file contents, all sequences of single and batch updates",
"No test calls the file adapter's incremental operations.",
["storage/adapter/fileadapter.go","model/policy/policy.go"],
[("read-modify-write","storage/adapter/fileadapter.go: AddRule, RemoveRule, AddRules, RemoveRules")])
p("C17","Malformed rules and policy files are reported, never a crash",
"Adding or removing any list of strings as a rule (empty, empty key, unknown key, too few values) and loading any bytes as a policy file either succeeds or returns an error; it never panics. A rejected rule leaves rules and links as they were, and loading never silently drops or alters a well-formed line.",
["inputs"],"all lists of strings as rules, all byte contents of policy files",
"The tests load well-formed files and rules only.",
["model/model.go","rbac/role_policy.go","storage/adapter/fileadapter.go"],
[("rule dispatch","model/model.go: AddRule, RemoveRule"),("role rules","rbac/role_policy.go: AddRule, RemoveRule"),("line parsing","storage/adapter/fileadapter.go: LoadPolicyLine")])
p("C18","Malformed requests and options are denied with an error, never a crash",
"For every list of request values of any length and type, every name of a request definition, matcher or effect, every matcher text, and every definition missing from the model, deciding and filtering return an error or a result; they never panic. A request with too few values for what the matcher reads is not allowed and reports an error.",
["inputs","configurations"],"all request value lists, all context options, all models with missing definitions",
"The tests pass complete requests of the right types against complete models.",
["enforcer.go","context.go","model/model.go","rbac/role_manager_api.go","util/builtin_operators.go","model/defs/defs.go"],
[("definition lookup","model/model.go: GetRequestDef, GetMatcher; context.go: NewContext"),("argument conversion","rbac/role_manager_api.go: GenerateGFunction; util/builtin_operators.go")])
p("C19","Path pattern matching equals its segment-wise definition",
"A path matches a pattern exactly when their segments pair up: a literal segment matches itself, a named segment matches any one segment, a star in the middle matches one or more segments and a final star matches any remainder; both pattern syntaxes follow the same rules. A string is reported as a pattern exactly when one of its segments is a star or a named segment.",
["inputs"],"all path and pattern strings",
"The tests check a table of a few dozen pairs; the recursive star handling has corner cases at empty segments, adjacent stars and trailing separators.",
["util/builtin_operators.go"],
[("matching","util/builtin_operators.go: PathMatchHelper, nextSegment, isDynamicSegment"),("pattern detection","util/builtin_operators.go: IsPathPatternHelper")])
p("C20","Caching is invisible: bounded, most recent entries, latest values, same answers",
"After any sequence of insertions and lookups the cache holds at most its capacity of entries, namely the most recently used ones, and a lookup returns the value last stored under that key. Role and domain answers that use cached pattern matches are the same as answers computed without a cache, for all names including ones containing the cache's own separators.",
["histories","inputs"],"all sequences of cache operations for all capacities, all names and patterns",
"The tests do one fixed eviction sequence and never store a key twice; cache key collisions need particular names.",
["util/cache.go","rbac/role_manager.go","rbac/domain_manager.go"],
[("LRU list","util/cache.go: Get, Put"),("match cache","rbac/role_manager.go: match; rbac/domain_manager.go: match")])
p("C21","A model written out as text loads back as the same model",
"For every model, the text it prints can be loaded into a new model that has the same definitions under the same keys and decides every request the same way. Sections, keys and argument lists survive in every combination, and printing the reloaded model gives the same text.",
["configurations","programs"],"all combinations of definitions in all sections, all argument names and matcher and effect texts",
"One test compares the text of two sample models after removing spaces; reloading is not tested.",
["model/model.go","model/defs/defs.go","model/defs/matcher_def.go"],
[("printing","model/model.go: String; model/defs: String methods"),("loading","model/model.go: LoadModelFromText, loadModelFromConfig, SetDef")])
p("C22","Named fields of requests and rules mean the values at their positions",
"In every matcher, effect and filter, a request field or rule field named in a definition denotes the value at that position of the definition, for every definition, whatever prefix its key has and however its field names overlap. A rule without a value for its effect field counts as allow, and a field that is absent from the definition or has no value is an error, never another field's value.",
["inputs","configurations"],"all definitions, all rules with at most as many values as the definition has fields, all requests",
"The tests look up fields of three fixed definitions.",
["model/defs/defs.go","model/matcher/matcher.go","enforcer.go"],
[("field lookup","model/defs/defs.go: GetParameter, GetEft"),("parameter dispatch","model/matcher/matcher.go: MatchParameters.Get")])
p("C23","Matcher text keeps its meaning: literals, attributes and names are not rewritten",
"String literals, nested attribute paths, numbers, function names and operators in a matcher mean the same after the matcher has been split into stages as in the original text. No literal or name is changed because it looks like a field reference, contains quotes or escapes, or looks like a date.",
["programs","inputs"],"all matcher texts with arbitrary literals, attribute paths and names",
"The tests use simple literals; the text rewriting is applied to the whole matcher including its literals.",
["model/defs/matcher_def.go","model/defs/defs.go"],
[("text rewriting","model/defs/defs.go: ArgReg; model/defs/matcher_def.go: Build, tokensToExpr")])
p("C24","Built-in matcher functions agree with their documented meaning on all inputs",
"The address function holds exactly when the address equals the given address or lies in the given range; the glob function is the standard glob match and the regular expression function the standard regular expression search. Arguments that are not strings, are too few or too many, or are malformed addresses or patterns give an error, never a match.",
["inputs"],"all argument lists of the built-in functions",
"The tests check small tables of valid inputs.",
["util/builtin_operators.go"],
[("wrappers","util/builtin_operators.go: IPMatch, GlobMatch, RegexMatch, WrapMatchingFunc, ValidateVariadicArgs")])
p("C25","Storage settings do what they say and loading is never echoed to storage",
"With storage disabled no rule change reaches the adapter, with storage enabled and autosave on every change reaches it immediately, and otherwise changes reach it at the next flush; loading rules from the adapter sends none of them back. The settings and pending changes survive exchanging the adapter, and a file name given as adapter behaves as the file adapter for that file.",
["configurations","histories"],"all combinations and sequences of storage, autosave, adapter exchange, load, save and rule changes",
"One test checks which settings are on right after construction.",
["enforcer.go","storage/controller.go"],
[("options","enforcer.go: NewEnforcer, OptionAutosave, OptionStorage, SetAdapter, LoadPolicy"),("listeners","storage/controller.go: Enable, Disable")])
p("C26","Multiple definitions are independent and a context selects exactly one of each",
"With several request, policy, effect, role and matcher definitions in one model, a decision uses exactly the request definition, matcher, effect and policy rules selected by name, and rules or links under other keys never influence it. Defaults apply to exactly those parts that were not selected.",
["configurations","inputs"],"all models with several definitions, all selections, all rule sets and requests",
"One test uses a model with two definitions of each kind and a few requests.",
["context.go","model/model.go","enforcer.go","model/defs/matcher_def.go"],
[("selection","context.go: SetMatcher, SetRequestDef, SetEffector, NewContext"),("policy key of a matcher","model/defs/matcher_def.go: GetPolicyKey")])
p("C27","Changing a definition takes effect and leaves the rest alone",
"After a definition is set again or removed and the matchers are rebuilt, decisions follow the new definition only, and rules and links under other keys are untouched. Using a removed definition gives an error.",
["configurations","histories"],"all sequences of setting and removing definitions, interleaved with rule changes and decisions",
"No test redefines or removes a definition.",
["model/model.go","model/handlers.go"],
[("definition handlers","model/handlers.go"),("matcher build","model/model.go: SetDef, RemoveDef, BuildMatchers")])
p("C28","Stored rules are the caller's values, not the caller's memory",
"Changing a slice after passing it to the model, or changing a slice received from a query, filter or listing, never changes stored rules, decisions, or what is later saved.",
["histories","inputs"],"all interleavings of rule operations with later modifications of the slices passed in or handed out",
"The tests never modify a slice after handing it over.",
["model/policy/policy.go","model/matcher/matcher.go","model/model.go","storage/controller.go"],
[("rule storage","model/policy/policy.go: AddRule, Range"),("queued operations","storage/controller.go: addOp")])
p("C29","Role, user and domain listings agree with the links",
"Listing the roles of a name, the users of a role, the domains of a name, all domains and all rules gives exactly the names that the current links imply, without omissions or duplicates, for unknown names an empty list, and with domains kept apart. Iteration over links stops when asked to.",
["histories","inputs"],"all link histories with any names and domains, all listing queries",
"The tests compare a few listings on one small graph.",
["rbac/role_manager.go","rbac/domain_manager.go","rbac/role.go","rbac/role_policy.go"],
[("listings","rbac/role_manager.go: GetRoles, GetUsers, Range; rbac/domain_manager.go: GetDomains, GetAllDomains, Range")])
p("C30","A batch of rule changes equals the same changes made one by one",
"Adding or removing several rules in one call leaves rules, links, index, decisions and storage exactly as making the same single calls in order would, including duplicates within the batch, rules already present or absent, and rules of several policies. If a rule of the batch is rejected the call reports it, the rules before it stay applied and reach the storage, and the autosave setting is as before the call.",
["inputs","histories","fault_sequences"],"all batches, all prior rule sets, all positions of a rejected rule, autosave on and off",
"The tests add or remove one batch of distinct valid rules.",
["enforcer.go","storage/controller.go"],
[("batch operations","enforcer.go: AddRules, RemoveRules")])
p("C31","Clearing a policy removes exactly its rules everywhere",
"Clearing one policy or role definition removes all of its rules or links from listings, decisions, filters and role queries at once, and leaves every other policy and role definition as it was; adding rules afterwards works as on a fresh instance.",
["histories","inputs"],"all rule sets, all histories around a clear",
"No test clears a policy that is used by a matcher.",
["model/model.go","model/policy/policy.go","rbac/role_policy.go","model/matcher/matcher.go"],
[("clear","model/model.go: ClearPolicy; model/policy/policy.go: Clear; rbac/role_policy.go: Clear"),("index reset","model/matcher/matcher.go: EVT_CLEARED listener")])
p("C32","Custom functions get the evaluated arguments and act only where registered",
"A function registered on a model is called with exactly the evaluated arguments of each use in a matcher, its result and error are used, and registering, replacing or removing it affects that model only from then on. Rule text evaluated from a rule field sees the same functions, request and rule as the matcher itself.",
["inputs","configurations","histories"],"all functions, arguments, registrations and removals on any number of models",
"The tests register one function on one model.",
["model/fm/function.go","model/model.go","model/matcher/matcher.go"],
[("function map","model/fm/function.go"),("rule text evaluation","model/matcher/matcher.go: generateEvalFunction")])
p("C33","Parts set on a model are used under their key and leave the rest alone",
"A policy, role manager, matcher, effector or request definition set on a model, or given with a request, is the one that decisions, filters, rule changes, clears and listings use under that key once the matchers are rebuilt, also if it is a foreign implementation of the interface. It is asked what the documentation of its interface says: a role manager gets the names and domains of each use, an effector every match once with its effect and a final call unless it settled before, a matcher the selected request definition, the request values and the functions. Its errors are reported and never become an allow, refused changes do not reach the storage, and parts under other keys stay as they were.",
["configurations","inputs","histories"],"all parts set in place of the standard ones, all requests and changes afterwards",
"The tests set a part on a model in one or two places and never let one fail.",
["model/model.go","context.go","enforcer.go","rbac/role_policy.go"],
[("setters","model/model.go: SetPolicy, SetRoleManager, SetMatcher, SetEffector, SetRequestDef"),("parts given with a request","context.go"),("use","enforcer.go: enforce; rbac/role_policy.go")])
p("C34","Rules may be changed from within an iteration over them",
"A callback that visits matches, rules or links may add, remove and clear rules and ask further questions. Every rule that is there throughout and belongs to the iteration is visited exactly once, no rule is visited that was never there, and nothing panics or hangs. The changes take effect at once for questions asked within the callback, and afterwards rules, decisions, listings and storage are as if the changes had been made outside.",
["histories","inputs","schedules"],"all rule sets, all moments of an iteration, all changes made then, all orders of visiting",
"No test changes anything from within a callback, and the order of visiting differs from run to run.",
["model/matcher/matcher.go","model/model.go","model/policy/policy.go","rbac/role_manager.go","rbac/domain_manager.go"],
[("iteration over matches","model/matcher/matcher.go: rangeMatches, isSeen"),("iteration over rules and links","model/model.go: RangeRules; model/policy/policy.go: Range; rbac: Range")])
p("C35","Loading a model gives exactly the definitions its text says",
"Loading a model from a text or file gives every definition of the known sections under its key with its value, whatever the layout: spacing, blank lines, comments, line ends, unknown sections, the order of sections and keys, a section in several pieces, or several texts loaded one after the other, where the last value of a key counts. A file and its text give the same model, also when a file name is given to the enforcer. Keys in a wrong section, matchers that cannot be built, texts that cannot be read and missing files are errors, and no text makes loading panic.",
["inputs","programs"],"all model texts",
"The tests load a few well-formed files.",
["model/model.go","model/handlers.go","enforcer.go"],
[("loading","model/model.go: LoadModel, LoadModelFromText, loadModelFromConfig, SetDef"),("definitions","model/handlers.go"),("model by file name","enforcer.go: NewEnforcer")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert x['statement'].count('. ')<=2, x['id']
print(len(P))
