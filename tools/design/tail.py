import json,glob,subprocess
o=[]
o.append("""
## 3. Defects found and repaired

Each is a `fix:` commit of /repo, listed in `known_findings.txt` as `fixed:` (which suppresses nothing), with a
regression case. By property first violated:
""")
for l in open('/verif/known_findings.txt'):
    if l.startswith('fixed:'):
        _,p,c,*w=l.split(' ',3); o.append(f"* {p[9:]} `{c}` {w[0].strip()}")
o.append("""
The checked-in generated lexers and parsers are what the build compiles (flex and bison run only when one of them is missing; the harness' build never runs them),
so repairs of the grammar are made in the generated file and in its source alike.

## 4. The recorded findings

`known:` C21/C22: an accepted expression of some 20000 chained operators exhausts an 8 MB stack when searched or
freed, since matching and freeing recurse once per operator. Making a dozen recursive functions iterative is not
a small repair, so it is recorded. Generated chains stay below 9000 operators; a crash on those is reported.

`known:` C25: a direct insertion refused only because an operator does not fit its attribute's type has already
given ids to its strings and enum values, so it uses up places of a bounded vocabulary. The repair is a matter of
order in `betree_insert_with_constants` (types before ids), but the existing test
`bound_tests::test_string_list_bounds` gets its strings known by inserting the ill-typed `sl in ("a")`, so it fails
with the repair. C17 and C25 (in histories where few values fit) only use faults of the other kinds: syntax,
unknown attributes, missing constants, too many values; a refusal of those that uses values up is reported.

## 5. False alarms corrected while building

* C23 first demanded that ranges at the edge of a domain also bound the values beyond it; the code deliberately
  keeps outside values in the edge ranges. The property now says so.
* C23 demanded gapless children for floats; halves of width 1 leave an open interval by design, kept in the
  parent. The property is limited to discrete domains.
* C29 demanded that values outside the domain lie in the bound; what the code relies on is that the bound reaches
  that edge. Property reworded.
* C34 assumed that an unbounded attribute never splits; preparing expressions announces bounds, after which it
  may. The generator now uses null tests on it.
* C12: points within a relative 1e-6 of the edge are skipped: both formulas round.
* C01, C02 (found by the coverage-guided stage): a radius of 0 at a pole, where the rounding of a distance of
  nothing decides; radii are now at least 0.01 km outside C12.
* C10: a negative cap length is unspecified; not generated.

## 6. What is left out

Outside the documented use, not generated: node capacity 0; reusing one
report for two searches, one event object with two trees; preparing first and then inserting directly an
expression with new strings (the vocabulary is frozen); two attributes whose names differ in case only;
coordinates beyond +-90/+-180 and antipodal points; negative cap lengths; a raw
double quote inside a printed string and null tests (no printed form, C15); the carriage return (not white space
in the language); literals beyond 64 bits (clamped by strtoll); malformed event texts given to a search, unknown
attribute names in events (documented to abort); text domain lines for `integer list` with a minimum only.
`event_to_string` of segments and caps (it says
TODO and aborts). `betree_delete` is commented out in the
header.

## 7. Planted bugs

`seeded/<id>/` holds changes written from the property texts and the code, each confirmed to build, to pass the
142 stable tests and to fail its demonstration. The check named is the one of its property; all listed ones are
caught by its quick run with the default seed. Those marked * were missed at first and led to stronger
generators:

* c06-float-order: near copies of decimals now differ by amounts down to the last bits;
* c30-leading-zero: bounds in definition lines are written with leading zeros and signs;
* c21-undefined-words: configurations of exactly 64, 128 attributes in C21;
* c13-short-size, c13-sign: strings beyond 255 characters, patterns that differ by one bit of one byte;
* c11-int-now: timestamps beyond 2038;
* c21-cap-namespace: namespaces of events that expressions name later.
""")
missed="c06-float-order c30-leading-zero c21-undefined-words c13-short-size c13-sign c11-int-now c21-cap-namespace c07-many-candidates c18-many-mandatory c32-last-enum c06-geo-single c25-enum-width c36-colspan c30-count-32 c21-cap-type-leak c36-enum-int c09-long-list c21-many-matches".split()
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); n=f.split('/')[3]
    o.append(f"| {n}{'*' if n in missed else ''} | {d['property']} | {d['what_it_breaks']} |")
k=next(i for i,x in enumerate(o) if x.startswith('| '))
o.insert(k,"| planted | caught by | what it breaks |\n|---|---|---|")
o.append("""
## 8. Costs

Setup builds everything in about a minute (once; later builds only what changed). A quick check takes 8 to 25 s
on 8 cores; a thorough one 10 to 60 minutes depending on the property, with at most 700 MB per worker.
""")
open('/verif/DESIGN.md','a').write('\n'.join(o))
