import json,re
P={}
def p(i,spec,oracle,reach): P[i]=(spec,oracle,reach)
p("C01","betree_search over generated configuration x expression set x event.","reference evaluator: set equality of ids, success of the search.","pruning, short circuits and memoization interact only in trees with many expressions over mixed attributes; the tests have at most a few per tree (real_tests need data that is not in the repository).")
p("C02","histories mixing insertions by three routes, refusals and searches.","reference evaluator over the accepted prefix, after every step that searches; every event repeated at the end.","node overflow, partition creation, moves between nodes depend on the order of insertions.")
p("C03","the same expressions in 2..4 trees that differ in capacity, minimum, order, route, companions.","metamorphic: equal id sets.","needs no model of the operators, so it also covers places where the model could share a misunderstanding with the code.")
p("C04","up to 200 optional attributes, null tests under nested negation, mostly absent values.","two-valued reference evaluation, for search and existence.","the bit sets of absent attributes have word boundaries at 64 and 128, and pass/fail sets are combined through negation; 3 of the 4 defects found here were on paths no test takes.")
p("C05","one attribute of every type and width, capacity 1..4, events at every value (small domains) or all neighbours of constants and edges.","reference evaluator; termination by CPU budget.","splits recurse on arithmetic over domain bounds: only extremes, odd widths and outside values show an off-by-one.")
p("C06","2..14 expressions made of reused or minimally changed parts.","metamorphic: the matches of the shared tree are the union of the matches of singleton trees.","a wrong identity needs two nearly equal sub-expressions and an event telling them apart.")
p("C07","random trees, rare matches.","existence == (search finds something), by text and by event object.","the existence walk is separate code with its own early exit.")
p("C08","several presentations of one event.","metamorphic: whole reports equal.","sorting, lower-casing, null and type conversion of events are done by presentation-specific code.")
p("C09","membership and list tests with up to 60 values, some with hundreds and a few with tens of thousands.","std::set operations.","the implementation merges or bisects sorted ids; repeats, extremes and unknown values are the boundary cases.")
p("C10","10 entity types x namespaces x constants x caps perturbed in one component; in a third of the cases numbers beyond 32 bits.","linear specification of the statement.","a confusion of components needs two caps that differ in exactly that component.")
p("C11","segments up to 45, timestamps at the boundary.","linear specification.","boundary in microseconds, ids and windows past 32 bits, times at the ends of 64, last element of a list.")
p("C12","points and radii around the real distance.","vector formula in extended precision with an excluded margin of 1e-6.","independent formula; date line, poles and sign combinations.")
p("C13","patterns cut from the strings or minimally changed.","std::string search.","lengths past 255, bytes past 127, empty strings.")
p("C14","sentences, altered sentences, random words.","independent lexer and recursive-descent parser written from the grammar: acceptance and structure.","both acceptance and refusal of all texts; the tests only parse valid text, mostly.")
p("C15","printable sentences and model expressions.","round trip (structure), and meaning by search.","numbers of all sizes, nesting with mixed operators.")
p("C16","event texts, altered texts.","independent reader: acceptance, order and every value.","64-bit extremes, decimals, nested caps, 30 attributes.")
p("C17","histories with faulty expressions of every class.","predicate of well-typedness of the model; control tree that never saw the faulty ones.","a refusal half way may leave ids, values or counters behind; needs history after the refusal.")
p("C18","events incomplete or with values of another type.","model predicate of fitting events.","each attribute type has its own reading code.")
p("C19","announcements before, between, after insertions.","reference evaluator.","boundaries change under existing partitions.")
p("C20","single-node, partitioned, sharing and non-sharing trees.","inequalities of the statement plus reference evaluator for matched.","counters are updated on several paths (short circuit, memoized, evaluated).")
p("C21","histories of up to 400 API calls, some that insert one expression up to 1400 times, freeing in any order.","ASan + UBSan + exact accounting of library blocks (allocated == freed at the end).","leaks and errors live on refusal paths and in combinations of calls.")
p("C22","altered, truncated, random, very long texts.","sanitizers, accounting, and sentinel texts read correctly afterwards.","arbitrary bytes; parser state after errors.")
p("C23","walk over the whole structure after every insertion.","invariants of the statement; the reference evaluator as the judge of whether a range excludes matching events.","invariants of a balanced state after every step of arbitrary histories.")
p("C24","few ids, many expressions.","multiset of reported ids.","moves between nodes once confused equal ids.")
p("C25","vocabularies of 1..5 values, histories of insertions over slightly more values, among them long texts that differ in the last letters only.","set of values used so far.","exactness at the limit over several attributes and insertions.")
p("C26","all sub-expressions of 1..40 near copies, some with lists of hundreds of values.","structural dump equality against order, equality and sharing identity; symmetry and transitivity; clone independence under ASan.","pairwise over thousands of nodes.")
p("C27","interleaved searches on 1..3 trees, reused events.","repeated report identical; equal to that of a fresh tree.","hidden state shows only in repetition.")
p("C28","container histories to 2000 operations, colliding and long common-prefix keys.","std::map / std::set, counts and number of comparisons.","rotations and growth need histories.")
p("C29","one expression, every attribute of it, every interesting value.","reference evaluator says true => value inside the bound.","containment over all values; the tests compare a few bounds.")
p("C30","definition lines and calls side by side.","differential: definitions, then all answers.","defaults and number formats.")
p("C31","fill, search, empty, refill, also with what was prepared before the emptying.","reference evaluator per round.","stale pointers after emptying need a second round.")
p("C32","2..4 threads, generated searches.","reference evaluator, plus ThreadSanitizer (happens-before, so timing hardly matters).","schedules; the tests are single threaded.")
p("C33","names in any case everywhere.","reference evaluator on lower-cased names.","each route (config, expression, event text, event object) lower-cases on its own.")
p("C34","structural half and point-expression half.","evaluated count <= candidates of a walk over the ranges, respectively <= 2 (4) x max(capacity, multiplicity).","pruning can be lost without any result changing: nothing else would notice.")
p("C35","one-node trees with copies and absent attributes.","lower and upper bounds on the counters from three-valued evaluation.","same: an optimisation lost silently.")
p("C36","trees of up to 120 expressions, also with attribute names that mean something in graphs, and values of every type; an event is printed again once the engine has filled it in.","a small parser of the DOT language, an isomorphism check between the drawn graph and the structure in memory, exact expected texts for what is printed; open files counted.","names of graph nodes collide and labels break only for particular bounds and names; nobody reads the drawing.")
p("C37","histories of declarations (of attributes expressions use, and of up to 400 that only make the tree wider, in steps around multiples of 64), insertions, refusals and searches.","reference evaluator over what was declared when each event arrives; at the end also a tree declared up front.","a bitmap sized when the expression came in is read with the number of attributes there are now.")
p("C38","2..4 trees, histories of up to 82 operations each, run in a generated order or in a thread each; then event objects searched in turns in trees configured alike.","the reference evaluator, and the same history run alone, outcome by outcome; ThreadSanitizer.","accidental sharing shows only when trees take turns.")
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
rules={}; 
src=''.join(open('/verif/harness/p_%s.cpp'%g).read() for g in 'core ops lang mem tree unit conc diag'.split())
for m in re.finditer(r'v\.push_back\(\{ "(C\d+)", "((?:[^"\\]|\\.)*)", (\d+), (\d+)',src): rules[m[1]]=(m[2].replace('\\"','"'),int(m[3]),int(m[4]))
out=[]
for i in sorted(P):
    r,q,t=rules[i]; s,o,w=P[i]
    out.append(f"**{i} {props[i]['title']}.**  Checked: {s}  Oracle: {o}  Cases: {r} Quick {q:,}, thorough {t:,}. Reach: {w}\n".replace('Quick ','Quick '))
open('/verif/DESIGN.md','a').write('\n'.join(['']+out))
tech={}
for i in P:
    s,o,w=P[i]
    tech[i]={"technique":"property-based testing (generated cases, shrinking): "+s.rstrip('.')+"; oracle: "+o.rstrip('.')}
json.dump(tech,open('/verif/tools/techniques.json','w'),indent=1)
