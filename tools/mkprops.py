import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Search returns exactly the inserted expressions that are true of the event",
"For any configuration, any set of accepted expressions inserted in the tree and any valid event, a search succeeds and reports every inserted id whose expression evaluates to true for that event under the documented meaning of the operators, and no other id. Each such id is reported once per insertion. This holds whatever structure (partitions, split domains, short-circuits, memoized sub-expressions) the tree has built to avoid evaluating expressions.",
["inputs","configurations","histories"],"every configuration (types, bounds, optional attributes), every set of well-typed expressions prepared then inserted as the README describes, every event valid for the configuration",
"The tests check a few dozen hand-written (expression, event) pairs, nearly all in trees small enough that no partition is created; the guarantee is over all expression sets, where wrong pruning only shows for particular combinations of bounds, attributes and event values.",
["src/betree.c","src/tree.c","src/ast.c","src/hashmap.c","src/memoize.c"],
[("partition search that may only skip expressions that cannot match","src/tree.c:match_be_tree/search_cdir/is_event_enclosed"),("expression evaluation","src/ast.c:match_node"),("short circuit bitmaps","src/tree.c:short_circuit_for_node"),("bounds of an expression","src/ast.c:get_variable_bound")],
["betree_search","betree_search_with_event","struct report"])

p("C02","Incremental insertion: searches reflect exactly what was inserted so far",
"After every prefix of a history of direct insertions and searches, a search reports exactly those ids whose expressions were accepted so far and are true of the event. Later insertions, with all the reorganisation they cause, never make an already inserted expression disappear, appear twice or change its result.",
["histories","inputs"],"every interleaving of betree_insert / betree_insert_with_constants / searches, with expressions whose constants respect the declared domains, and events inside or outside those domains",
"The tests insert a handful of fixed expressions and look at the final shape; they do not search after each step of a history long enough to overflow, partition and re-split nodes.",
["src/betree.c","src/tree.c","src/config.c"],
[("overflow handling moves expressions between nodes","src/tree.c:space_partitioning/space_clustering/move"),("insertion point selection","src/tree.c:insert_be_tree/insert_cdir")],
["betree_insert","betree_insert_with_constants","betree_search"])

p("C03","Results do not depend on tuning, insertion order or insertion route",
"The set of ids found for an event is the same whatever node capacity and minimum partition size the tree was made with, in whatever order the expressions were inserted, whether they went through prepared subscriptions or direct insertion, and whatever other expressions share the tree.",
["configurations","histories","inputs"],"every pair of tree parameters, permutations and subsets of the same expression set, both insertion routes",
"Tests use the default parameters almost everywhere and one insertion order; no test compares two organisations of the same expressions.",
["src/betree.c","src/tree.c","src/config.c"],
[("capacity and partition thresholds","src/tree.c:update_cluster_capacity/space_partitioning"),("attribute scoring","src/tree.c:get_next_highest_score_unused_attr")],
["betree_make_with_parameters","betree_search"])

p("C04","Undefined attributes: absence is false, and shortcuts never change a result",
"When an event leaves an optional attribute out, every comparison, equality, set, list, boolean-variable, emptiness or special test on it is false, `is null` is true and `is not null` false, and `and`/`or`/`not` combine these results in the ordinary two-valued way. Deciding an expression early from the set of missing attributes always gives the answer that full evaluation would give, for any nesting of negations and any number of attributes.",
["inputs","configurations"],"all boolean nestings over optional attributes and all subsets of missing attributes, with up to a few hundred attributes",
"Short-circuit tests cover single operators and a couple of pairs; the interaction of negation with conjunction/disjunction and with attribute numbers past a machine word is unbounded.",
["src/tree.c","src/ast.c","src/var.c","src/memoize.c"],
[("per-expression pass/fail bitmaps","src/tree.c:fill_short_circuit/short_circuit_for_node/try_short_circuit"),("undefined check in evaluation","src/ast.c:match_* and src/var.c:get_variable")],
["betree_search","betree_exists"])

p("C05","Domain splitting never loses a match on ordered and discrete domains",
"An expression over an integer, float, string, integer-enum, boolean or list attribute is found for every event value that satisfies it, including values on, next to and outside the declared or adjusted bounds, however often the domain has been split and however the constraint is written (direct, negated, conjunction, disjunction, set membership). Insertion always terminates normally for any legal domain width.",
["inputs","configurations"],"all domains (any width, sign, extreme end points, small fractional float domains), enough expressions on the same attribute to force repeated splits, all event values at and around the split points",
"Bound tests compute a few bounds by hand and the tree tests split one or two small integer domains; the boundary values of every split of every domain type cannot be enumerated by examples.",
["src/tree.c","src/ast.c","src/config.c","src/utils.c"],
[("domain split","src/tree.c:split_value_bound"),("enclosure tests","src/tree.c:sub_is_enclosed/is_event_enclosed"),("expression bounds under and/or/not","src/ast.c:get_variable_bound_inner")],
["betree_search","betree_insert","betree_insert_sub"])

p("C06","Shared sub-expressions are isolated: memoization never changes any result",
"Each expression in a tree gives, for every event, the same answer it gives when it is alone in a tree, no matter how many other expressions contain identical or nearly identical sub-expressions. Two sub-expressions share a remembered result only when they are equivalent for every event.",
["inputs","configurations"],"all collections of expressions with repeated and near-identical parts (differing in one operator, operand, attribute, list element, constant, pattern, identifier or operand order)",
"Memoize tests count a few shared predicates; confusions arise only for particular pairs of similar nodes, whose number is quadratic in the language.",
["src/hashmap.c","src/ast_compare.c","src/jsw_rbtree.c","src/memoize.c","src/ast.c"],
[("ordering used to identify equal sub-expressions","src/ast_compare.c:expr_cmp"),("predicate ids","src/hashmap.c:assign_pred"),("per-search memo","src/ast.c:match_node_inner")],
["betree_search","struct report memoized"])

p("C07","Existence check agrees with search",
"For every tree and every event, the existence query answers true exactly when the search for the same event succeeds and reports at least one id.",
["inputs","histories"],"all trees and valid events, text and built events",
"Only a few existence examples are tested, on tiny trees.",
["src/betree.c","src/tree.c"],
[("early-exit evaluation","src/tree.c:betree_exists_with_preds")],
["betree_exists","betree_exists_with_event"])

p("C08","Every way of presenting the same event gives the same result",
"An event given as text and the same event built through the API produce identical reports; so do reordering its attributes, reordering or repeating the elements of its lists, changing whitespace, quote style or attribute-name case, writing an optional attribute as null instead of leaving it out, and writing a float without its fraction when it has none.",
["inputs"],"all valid events and all such presentations of them",
"Tests parse fixed event strings and use the building API separately; they never compare presentations.",
["src/event_parser.y","src/event_parser.c","src/betree.c","src/tree.c","src/value.c"],
[("event normalisation","src/tree.c:fill_event/sort_event_lists"),("event text parser","src/event_parser.y"),("building API","src/betree.c:betree_make_*_variable")],
["betree_search","betree_search_with_event","betree_make_event"])

p("C09","Set and list operators are mathematical set operations",
"`in`, `not in`, `one of`, `none of`, `all of` and `is empty` depend only on the sets of values involved: membership, non-empty intersection, empty intersection, inclusion and emptiness. Order and repetition of elements in the expression or the event, list lengths, and strings the tree has never seen do not change this.",
["inputs"],"all integer and string lists on both sides (unsorted, repeated, empty event lists, extreme integers, unknown strings), alone and negated",
"A few short sorted lists are tested; merge and binary searches fail only on particular size/position combinations.",
["src/ast.c","src/value.c","src/tree.c"],
[("list intersections by merge","src/ast.c:match_not_all_of_*/match_all_of_*"),("binary search","src/ast.c:d64binary_search/sbinary_search"),("sorting and de-duplication","src/value.c:sort_*"),],
["betree_search"])

p("C10","Frequency caps are evaluated as specified, for the right entity and namespace",
"`within_frequency_cap(type, ns, value, length)` is true exactly when the event has no cap entry for that entity type, for the identifier supplied as the expression's constant and for that namespace, or when the first such entry leaves room: its count is below the value, or (for a positive length; lengths are not negative) its timestamp is undefined or older than length seconds. Expressions with different constants, types or namespaces never affect each other, and an expression lacking the constant its type needs is rejected.",
["inputs","configurations"],"all cap lists, types, identifiers, namespaces, values, lengths and times, several such expressions with different constants in one tree",
"The tests cover a handful of caps with one expression per tree and one constant set.",
["src/special.c","src/ast.c","src/ast_compare.c","src/config.c","src/betree.c"],
[("cap evaluation","src/special.c:within_frequency_caps"),("constants","src/ast.c:assign_constants"),("namespace ids","src/config.c:get_id_for_string")],
["betree_search","betree_make_sub","betree_insert_with_constants","betree_make_integer_constant"])

p("C11","Segment recency tests follow the event's segment timestamps",
"For events whose segments are listed by increasing id, `segment_within` is true exactly when the named segment is present with a timestamp not older than the given number of seconds before now, and `segment_before` exactly when it is present with an older one; both are false when the segment is absent. The default and the named segment attribute behave alike.",
["inputs"],"all segment lists, ids, timestamps in microseconds, durations and times, both forms",
"A few fixed cases; boundaries (equality at the second, first/last/absent segment) are unbounded.",
["src/special.c","src/ast.c"],
[("segment scan","src/special.c:segment_within/segment_before")],
["betree_search"])

p("C12","Geographic radius test agrees with great-circle distance",
"`geo_within_radius(lat, lon, r)` is true exactly when the great-circle distance in kilometres between the given point and the event's latitude/longitude is at most r (up to rounding at the very edge), for integer or decimal arguments of either sign, and false when either coordinate is missing.",
["inputs"],"all pairs of points and radii away from a relative tolerance of the boundary",
"Two or three points are tested.",
["src/special.c","src/ast.c","src/parser.y"],
[("haversine chord formula","src/special.c:geo_within_radius")],
["betree_search"])

p("C13","String predicates are exact substring, prefix and suffix tests",
"`contains`, `starts_with` and `ends_with` on a string attribute are true exactly when the event's string has the pattern as a substring, prefix or suffix, byte for byte, whether or not the string is known to the tree, including empty and over-long patterns.",
["inputs"],"all string/pattern pairs over small and arbitrary alphabets",
"Only a few literal pairs are tested.",
["src/special.c","src/ast.c"],
[("string tests","src/special.c:contains/starts_with/ends_with")],
["betree_search"])

p("C14","The expression language is parsed with its documented precedence, and only it",
"Text is accepted exactly when it is a sentence of the expression language, and the tree built has the meaning given by the grammar: parentheses, `not` over `and` over `or`, left association, symbolic and word operators alike, either operand order of comparisons, any whitespace (exactly one space inside multi-word operators), any attribute name that is not a keyword. Any other text (missing operands, trailing or unknown characters, unbalanced parentheses) is refused.",
["inputs"],"all token sequences built from the grammar and all small mutations of them",
"Parser tests list some dozens of sentences and almost no rejections.",
["src/parser.y","src/parser.c","src/lexer.l","src/lexer.c","src/ast.c"],
[("grammar","src/parser.y"),("lexer","src/lexer.l"),("and/or reordering that must not change meaning","src/ast.c:ast_bool_expr_binary_create")],
["parse","betree_make_sub","betree_insert"])

p("C15","Printed expressions read back as the same expression",
"Printing a parsed expression and parsing the print yields an expression with the same meaning for every event, for every construct whose printed form is in the language.",
["inputs"],"all expressions over the constructs whose printed form is re-parseable, at the precision the printer keeps",
"Printer tests compare a few strings; grouping errors depend on nesting.",
["src/printer.c","src/parser.y"],
[("printer","src/printer.c:ast_to_string")],
["ast_to_string","parse"])

p("C16","Event text is read faithfully",
"Parsing an event text yields exactly the attributes it names, in order, with exactly the values written (booleans, 64-bit integers of either sign, decimals, strings, lists, segments, frequency caps), leaving out nulls; text that is not a complete event is refused.",
["inputs"],"all events of the event grammar and mutations of them; repeated parsing in one process",
"A dozen examples are tested; rejection is not.",
["src/event_parser.y","src/event_parser.c","src/event_lexer.l","src/event_lexer.c","src/value.c"],
[("event grammar","src/event_parser.y")],
["event_parse"])

p("C17","Ill-formed or ill-typed expressions are refused without side effects",
"Preparing or inserting an expression fails cleanly (no crash, no partial insertion) when it does not parse, names an attribute that is not configured, applies an operator to an attribute of the wrong type, lacks a needed constant or (when preparing) tests nullness of a mandatory attribute, and succeeds otherwise. After a refusal the tree answers every search as if the attempt had not been made; only values of a bounded vocabulary named by a direct insertion refused for an operator of the wrong type may stay reserved.",
["inputs","histories"],"all expressions, well-typed or with one or more type, name or shape faults, mixed in a history with accepted ones",
"Validity tests list a few rejected forms and never check the tree afterwards.",
["src/betree.c","src/ast.c","src/config.c"],
[("validation","src/ast.c:all_variables_in_config/all_exprs_valid"),("rejection paths","src/betree.c:betree_make_sub/betree_insert_with_constants")],
["betree_make_sub","betree_insert","betree_insert_with_constants"])

p("C18","Events that do not fit the configured attributes are refused",
"A search succeeds exactly when the event defines every attribute configured as mandatory and gives no attribute a value of another type (a whole number is also a float, an empty list is a list of any kind); otherwise the search returns failure, the report stays empty, no match is said to exist, and the tree remains usable.",
["inputs","configurations"],"all configurations, subsets of attributes present in the event and types of their values",
"One or two missing-attribute examples are tested.",
["src/tree.c","src/betree.c"],
[("mandatory attribute validation","src/tree.c:validate_variables")],
["betree_search","betree_search_with_event"])

p("C19","Boundary adjustment is transparent",
"Announcing expressions so that the tree adjusts its attribute boundaries, in any order and any number of times, with expressions that are later inserted or not, never changes which ids a search reports for expressions whose strings were announced or that are prepared; announcing unusable text is refused without effect.",
["inputs","histories"],"all sequences of boundary announcements before insertion, including ones unrelated to the inserted expressions",
"The tests check the numeric bounds after single announcements, never the searches that follow.",
["src/betree.c","src/config.c","src/tree.c"],
[("bound extraction","src/betree.c:change_boundaries/get_simple_variable_bound")],
["betree_change_boundaries","betree_search"])

p("C20","Report counters are truthful",
"A report's match count equals the number of ids it lists; the evaluated count is at least the matched count and at most the number of inserted expressions, and equals it in a tree that has not partitioned; short-circuited evaluations never exceed evaluated ones, and none are reported for an event with every attribute defined or memoized results for expressions without shared parts.",
["inputs","histories"],"all trees and events",
"Report tests check fixed numbers on single expressions.",
["src/tree.c","src/ast.c","src/betree.c"],
[("counting","src/tree.c:betree_search_with_preds/match_sub; src/ast.c:match_node_inner")],
["struct report"])

p("C21","No history of API calls corrupts or leaks memory",
"Any history of documented calls (configure, prepare, insert, refused inserts, searches of every kind, refused events, building and freeing events, constants and values, printing expressions, emptying and freeing the tree) runs without out-of-bounds access, use after free, double free or undefined behaviour, and once everything has been freed no memory allocated by the library remains.",
["histories","inputs"],"all call histories with valid arguments, including failing operations",
"Tests run without sanitizers in the build and never look at memory; error paths are hardly exercised.",
["src/betree.c","src/tree.c","src/ast.c","src/config.c","src/value.c","src/hashmap.c","src/map.c","src/jsw_rbtree.c"],
[("ownership of nodes, events, maps","free_* functions")],
["all of betree.h"])

p("C22","Arbitrary text never crashes the readers",
"For any byte string, the expression reader, the event reader, subscription preparation and direct insertion return normally (accepting or refusing), without undefined behaviour and without leaking, and leave the process able to read further text correctly.",
["inputs"],"all byte strings, in particular near-sentences of both languages",
"Tests feed only well-formed text.",
["src/lexer.c","src/parser.c","src/event_lexer.c","src/event_parser.c","src/betree.c","src/ast.c"],
[("scanners and parsers","src/lexer.l, src/parser.y, src/event_lexer.l, src/event_parser.y")],
["parse","event_parse","betree_make_sub","betree_insert","betree_change_boundaries"])

p("C23","The tree structure stays well formed",
"After every insertion the tree holds every inserted expression in exactly one node; a node under a partition only holds expressions that use the partition's attribute and whose bounds lie inside the node's range; child ranges lie inside the parent's range and reach from its lowest to its highest value, without gaps on discrete domains; no attribute is partitioned twice on a path; parent links are consistent; and any expression can be found by id. A tree is only divided once it holds more expressions than the node capacity it was made with, and a partition only made for at least the configured minimum number of expressions.",
["histories","configurations"],"all insertion histories and parameters",
"Structure tests look at a few small trees by hand.",
["src/tree.c","src/tree.h","src/debug.c"],
[("partitioning","src/tree.c:space_partitioning/space_clustering/insert_cdir"),("lookup","src/tree.c:find_sub_id")],
["struct cnode","find_sub_id","sub_is_enclosed"],
state=[dict(name="cnode/lnode/pdir/pnode/cdir",meaning="the partition tree",where="src/tree.h")])

p("C24","Subscriptions sharing an id stay independent",
"Inserting several expressions under the same id keeps all of them: a search reports the id once for each of those expressions that is true of the event, whatever reorganisations have moved them.",
["histories"],"all histories where ids repeat, with expressions using different attributes",
"One test inserts two expressions with the same id, without any node overflow.",
["src/tree.c"],
[("moving expressions between nodes","src/tree.c:move/remove_sub")],
["betree_insert","betree_search"])

p("C25","Bounded vocabularies are enforced exactly",
"For a string, string-list or integer-enum attribute declared with a maximum number of values, direct insertion accepts an expression exactly when the distinct values used by it and by the previously accepted expressions on that attribute fit the maximum; repeats, spelling of the attribute name and spreading values over an expression make no difference. A value never matches an event holding a different or unknown value.",
["histories","inputs","configurations"],"all declared sizes, histories of expressions with overlapping vocabularies, and events with known and unknown values",
"Tests check a bound of one or two with one expression each.",
["src/config.c","src/ast.c","src/betree.c"],
[("capacity check","src/ast.c:all_bounded_strings_valid"),("value ids","src/config.c:get_id_for_string/get_id_for_ienum")],
["betree_insert","betree_search"])

p("C26","Copying and comparing expressions is faithful",
"A copy of an expression is equal to it and independent of it; the order used to share sub-expressions is a total order that calls two expressions equal exactly when they have the same structure and constants; the equality test is consistent with it, up to the tolerance on decimals.",
["inputs"],"all pairs and triples of prepared expressions over all node kinds, near-identical ones in particular",
"Equality tests compare a few pairs; order laws are never tested.",
["src/clone.c","src/ast_compare.c","src/ast.c"],
[("deep copy","src/clone.c:clone_node"),("order","src/ast_compare.c:expr_cmp"),("equality","src/ast.c:eq_expr")],
["clone_node","expr_cmp","eq_expr"])

p("C27","Searching is read-only and repeatable",
"A search or existence query never changes the tree: repeating any event at any later point without insertions in between yields the same ids and counters, an event object can be searched again, also after further insertions, with the result a fresh one gives, and independent trees in one process never influence each other.",
["histories"],"all sequences of searches over several trees and events",
"Tests search once or twice per tree.",
["src/tree.c","src/betree.c","src/event_parser.y"],
[("per-search memo and environment","src/tree.c:betree_search_with_preds"),("process-wide parser state","src/event_parser.y:root")],
["betree_search","betree_exists","betree_search_with_event"])

p("C28","The lookup containers behave as maps and ordered sets",
"The string table returns exactly the last value stored for each key and nothing for other keys after any history of insertions, removals and growth; the ordered container finds exactly the elements present (by its comparison), keeps count, and stays correct, with lookups in a logarithmic number of comparisons, after any history of insertions and removals.",
["histories"],"all operation histories over overlapping key sets, including colliding and long keys",
"No test exercises the containers directly.",
["src/map.c","src/jsw_rbtree.c"],
[("hash table","src/map.c"),("red-black tree","src/jsw_rbtree.c")],
["map_get_/map_set_/map_remove_/map_next_","jsw_rbfind/jsw_rbinsert/jsw_rberase/jsw_rbsize"])

p("C29","The bound computed for an attribute covers every matching value",
"For every expression and attribute, the range computed from the expression contains every value of the attribute inside its domain for which the expression can be true (decimals up to the equality tolerance), and reaches the edge of the domain beyond which the expression can be true.",
["inputs","configurations"],"all expressions, domains of every type and all in-domain values",
"Bound tests are a list of hand-computed examples, mostly one or two operators deep.",
["src/ast.c"],
[("bound computation","src/ast.c:get_variable_bound")],
["get_variable_bound"])

p("C30","Textual domain definitions configure the same tree as the API",
"A domain line `name|type|allow_undefined|min|max` configures exactly the attribute that the corresponding API call does: same name, type, optionality and bounds, and attribute definitions are reported back in declaration order with the declared name and type.",
["configurations","inputs"],"all types, optional and mandatory, with and without bounds",
"The helper is only used to load data files.",
["src/helper.c","src/config.c","src/betree.c"],
[("line parsing","src/helper.c:add_variable_from_string"),("definitions","src/betree.c:betree_get_variable_definition")],
["add_variable_from_string","betree_get_variable_definition"])
p("C31","An emptied tree is as good as new",
"Emptying a tree drops every expression and remembered sub-expression and keeps its configuration: it then reports nothing for any event, and after new insertions (same ids and expressions or others) it reports exactly the expressions inserted since, any number of times.",
["histories"],"all histories of filling, searching and emptying one tree, with either insertion route, expressions prepared before an emptying and inserted after it included",
"The helper is only used between benchmark runs; no test searches an emptied tree.",
["src/helper.c","src/tree.c","src/hashmap.c"],
[("emptying","src/helper.c:empty_tree"),("sharing table reset","src/hashmap.c:free_pred_map/make_pred_map")],
["empty_tree","betree_insert","betree_search"])

p("C32","Searches of one tree may run at the same time",
"Several threads searching one tree that nobody is changing, each with its own events and reports and whether the events are built or given as text, get exactly the reports they would get one after the other, without data races; the same holds for threads working on trees of their own.",
["schedules","inputs"],"all trees, events and interleavings of searching threads",
"The tests are single-threaded.",
["src/betree.c","src/tree.c","src/event_parser.y","src/event_parser.c"],
[("per-search state","src/tree.c:betree_search_with_preds"),("parser state","src/event_parser.y:root")],
["betree_search","betree_search_with_event","betree_exists"])
p("C33","Attribute names are not case sensitive anywhere",
"An attribute may be configured, named in expressions, in event texts and in event objects with any mixture of upper and lower case letters: all spellings denote the same attribute, reserved names (now, latitude, longitude, segments_with_timestamp, frequency_caps) included, while string values stay case sensitive. Definitions are reported back as declared.",
["inputs","configurations"],"every configuration whose names differ by more than case, every spelling of each name at each place it may appear",
"Tests write every name in lower case, except one.",
["src/config.c","src/tree.c","src/betree.c","src/lexer.l","src/event_parser.y","src/ast.c","src/special.c"],
[("attribute lookup","src/tree.c:try_get_id_for_attr"),("event attributes to slots","src/tree.c:make_environment"),("names in expressions","src/ast.c")],
["betree_add_*_variable","betree_make_sub","betree_insert","betree_search","betree_exists","betree_get_variable_definition"])
p("C34","Partitioning spares a search the expressions the event rules out",
"An expression held under a range of an attribute's values is not evaluated by a search for an event whose value of that attribute lies outside the range (a range at an edge of the domain also stands for everything beyond it). When every expression tests one attribute of a small domain (a boolean, fewer than 1000 integers or vocabulary entries) for a single value, a search evaluates, however many are inserted, at most twice as many expressions as the larger of the node capacity and the number testing for the event's value; four times for two such attributes.",
["histories","inputs","configurations"],"all attribute types that can be divided, tuning parameters, insertion routes and orders, and events, in and outside the domains",
"Pruning that stops working leaves every result right, so only the counters over many structures show it; tests use trees of a few expressions.",
["src/tree.c","src/ast.c"],
[("ranges an event is in","src/tree.c:is_event_enclosed"),("splitting","src/tree.c:space_clustering"),("partitioning","src/tree.c:space_partitioning"),("placing","src/tree.c:insert_cdir"),("bounds","src/ast.c:get_variable_bound")],
["betree_insert","betree_insert_sub","betree_search"])
p("C35","Known results are reused: memoization and short circuits take effect",
"In a search that evaluates several copies of one expression, all but the first take their remembered result, unless they were short-circuited; so the memoized count is at least the number of such copies. Every evaluated expression that the absence of one optional attribute decides, whatever the other attributes are, is short-circuited and counted, and no expression that uses only attributes present in the event is.",
["inputs","configurations"],"all expressions of any nesting, any number of attributes, insertion routes and events; tests that look at several attributes (segments, caps, geography) are required nothing of",
"A lost short circuit or a remembered result that is never found again leaves every result right; a few tests look at the counters of two or three expressions.",
["src/tree.c","src/hashmap.c","src/ast.c","src/memoize.c"],
[("short circuits","src/tree.c:short_circuit_for_node"),("their use","src/tree.c:try_short_circuit"),("sharing","src/hashmap.c:assign_pred"),("remembered results","src/ast.c:match_node_inner")],
["betree_insert","betree_make_sub","betree_search"])
p("C36","Diagnostic output shows the true state of trees and values",
"The graph written of a tree (data/betree.dot) is, when the call returns, a complete file in the DOT language that shows exactly that tree: every node that holds something once and under a name of its own, with its links, the ids at each leaf and the range of every division, a half below its side of the range it is a half of, and the parts of one directory on one level. Printing an attribute, a range, a variable or an event gives its name, type, optionality and values as they are, empty lists, negative numbers and the ends of what a type can hold included. No memory or file stays behind and searches are unaffected.",
["inputs","configurations","histories"],"all trees that insertions produce, all attribute names the expression language has, all values (segments and frequency caps are not part of printed events)",
"One test writes a graph and never reads it; nothing tests the printers. Names of nodes only collide, and the text only breaks, for particular bounds and names.",
["src/debug.c","src/printer.c","src/value.c","src/tree.c"],
[("graph of a tree","src/debug.c:write_dot_file"),("names of its nodes","src/debug.c:get_path_cdir"),("printers","src/printer.c:print_variable/print_attr_domain/print_cdir"),("printed events","src/tree.c:event_to_string")],
["write_dot_file","print_variable","print_attr_domain","print_cdir","event_to_string"])
p("C37","Attributes may be declared at any time",
"Declaring an attribute never disturbs what a tree already holds: expressions inserted before, over the attributes there were then, keep matching exactly the events that make them true, and expressions inserted afterwards may use it, whatever the order of declarations, insertions, searches and the number of attributes. An expression over an attribute that is not declared yet is refused without side effects. Once everything is declared the tree answers as one that had every attribute from the start.",
["histories","inputs","configurations"],"all orders of declarations (up to some 400 attributes), insertions (both routes), refusals and searches, tuning parameters and events",
"Every test declares all attributes first; what goes wrong otherwise depends on how many there were at each insertion and is silent.",
["src/tree.c","src/betree.c","src/config.c"],
[("attributes of an expression","src/tree.c:sub_has_attribute"),("short circuits","src/tree.c:try_short_circuit"),("declarations","src/config.c:add_attr_domain"),("events","src/betree.c:make_environment")],
["betree_add_*_variable","betree_insert","betree_make_sub","betree_insert_sub","betree_search","betree_exists"])
p("C38","Trees do not influence one another",
"Several trees may exist in one process, with attributes of the same names and different types, configurations alike or not: whatever is done to the others, in between or at the same time from other threads (insertions, refusals, searches, announcements, emptying, freeing and making again), each tree accepts, refuses and reports, counters included, exactly what it would alone.",
["histories","schedules","configurations"],"all sets of trees and histories of operations on them, all ways of interleaving whole operations and, for trees used by one thread each, all schedules",
"Each test works with one tree at a time, and state shared by accident (a cache, a buffer, a counter) goes unnoticed until two trees are used in turns.",
["src/tree.c","src/betree.c","src/config.c","src/hashmap.c","src/parser.c","src/event_parser.c"],
[("state of a tree","src/config.c:make_config"),("state of a search","src/tree.c:betree_search_with_preds"),("parser state","src/parser.y:root")],
["betree_make","betree_free","betree_add_*_variable","betree_insert","betree_make_sub","betree_insert_sub","betree_change_boundaries","betree_search","betree_exists"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S)
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    s=x['statement']; n=s.count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
