import json,os,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
P={d['id']:d for d in props}
man={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
na=json.load(open('/verif/MANIFEST.json'))['not_applicable']
s=open('/verif/DESIGN.md').read().split('## Properties')[0].split('5. **Laws**')[0].rstrip()
s+='''

5. **Laws** (`laws.go`, `p_*.go`): most properties are stated as Go functions of the synthetic package that use the API
   of /repo on symbolic arguments and assert what has to hold (`zzAssert`, `zzAssertSame`). The law is abstractly
   executed, never run: an assertion holds only if it is true on every feasible path, a panic that the law does not
   catch is a failure, and anything unmodelled is undecided and fails. Sources that fail, short reads and writes, user
   functions and handlers are symbolic: `zzBool("...")` splits the state, so every schedule of failures within the
   bound is covered. The oracle of a law is independent of the code: a sum in exact arithmetic, a reference reader of
   RFC 8259, a list of what is written.
6. **Numeric domains** used by laws that need them: intervals and known bits for every term; convex polyhedra over
   the terms of a path (`poly.go`: Fourier-Motzkin, and a rational simplex when there are many constraints) with
   wrap-around decided by splitting; digit strings (`digits.go`): the decimal text of a number of known length, its
   substrings and zero paddings, with their values related by powers of ten; products of two terms are kept as terms
   of their own with the sign and magnitude facts that follow.
7. **Text**: strings are sequences of known and symbolic pieces; strings of known length are compared byte by byte
   (`Bytewise`), and regular expressions of constant text are matched symbolically against them (`regex.go`), the
   state splitting on classes of bytes.
8. **Sharding**: the laws of an expensive property are divided over processes (`shard.go`). All checks together take
   10 minutes on 8 cores; one check takes 1 to 90 s. Quick and thorough commands are the same: there is no sampling,
   so there is nothing to deepen by running longer; bounds are part of the properties.
9. **Longer inputs** (`p_long.go`, `p_long2.go`): beside the exhaustive laws over small symbolic inputs, laws over
   longer ones (tens of elements, up to 65 keys of a sorted search, buffers that grow and refill) with few symbolic
   elements, so that a threshold hidden in the code (a buffer size, a batch) is crossed.
10. **Lock discipline** (R03): a path-sensitive typestate over the mutex of the router; every access to the routes
   is under it and every path releases it, found from the source and not from the names of functions.

## What could not be used

Nothing that is installed was missing. A solver was not used, as it belongs to another family; the polyhedral domain
decides entailment by elimination. The analyzer's models of the standard library (strconv, strings, bytes, bufio, csv,
math/big, reflect, regexp, sort, sync, net/http headers) are trusted; where a model does not cover a call, the
obligation is undecided.

## Properties

Each property names its technique in MANIFEST.json and its bounds in properties.jsonl ("quantifier"). Why static
analysis reaches what tests cannot: each unknown is a symbol that stands for every value, each failure or callback
result is split, so that a check covers all inputs within the structural bound (number of elements, calls, bytes).

'''
fam=[("C","conv: conversion functions and the table","interval and provenance interpretation of each conversion function and table entry (C01-C04); laws comparing Must functions with their originals (C05)","every instance of the generic functions and every entry of the table is an obligation; a conversion is exact if the value is unchanged on all paths that return nil, and refused only outside of the target's interval"),
("I","iter","typestate simulation of iterators (I01, I02) and laws over readers that return any number of bytes, errors at any point (I03, I04)","all interleavings of Next and Unread to a fixpoint; readers of up to 4-6 bytes"),
("U","union","laws over every member, present or not, nil or not","all methods of Two, Three, Four, Maybe, Result"),
("S","stream","simulation automata: each transform is driven from every abstract state with an opaque source and user functions; Parallel by an abstract execution of its goroutines, wait group and channels (S09)","unbounded number of calls for S01-S06 (fixpoint); small multisets for sorting"),
("F","funcs","laws over slices and maps of up to 3-6 symbolic elements, symbolic functions","every instance analysed is named in the note of the property"),
("M","math","polyhedral laws over every operand (M01-M04) and laws with digit strings over every 18 digit value (M05-M11)","all values; scales are enumerated pairs"),
("E","event","laws over histories of registrations and removals with symbolic ids","three registrations, one removal, one more registration"),
("R","rest","laws with an arbitrary but fixed decision for each pattern and path; lock analysis (R03)","three handlers, two requests"),
("J","encoding/json","laws over templates with symbolic bytes against an independent RFC 8259 reader","35 templates for parsing, all texts of up to 4 characters for numbers, all strings of up to 2 for writing"),
("W","io and io/writer","laws with destinations that fail or write short at any write","up to three values"),
("T","tuple","laws over all values",""),
("X","reflect","laws over a table of types and chains of symbolic pointers","42 types; three pointers")]
for k,n,t,b in fam:
    s+='### %s\n\nTechnique: %s.%s\n\n| id | property | bounds and exclusions |\n|---|---|---|\n'%(n,t,(" Bounds: "+b+".") if b else "")
    for d in props:
        if d['id'][0]==k and d['id'] in man: s+='| %s | %s | %s; %s |\n'%(d['id'],d['title'],d['quantifier']['text'],re.sub(r'\|','/',man[d['id']].get('level_note','')))
    s+='\n'
s+='''### Not decided

%s
Parts left out of claimed properties, because no sound static argument in reach decides them: rounding of Decimal.Mul
for products beyond 18 digits whose scale is beyond 18 (double rounding), Decimal.Div for pairs of scales with more
digits, the text of floats and big floats, the precision of *big.Float results, the JSON text of floats, the exact wording of errors, performance, and the
real interleaving of goroutines outside of Parallel.

## Genuine defects

`known-findings.txt` lists every defect the checks found, each repaired by one "fix:" commit. Defects seen while
reading, outside of the claimed properties, and left alone: CamelCaseToSnakeCase panics on an empty name and loses
digits; conv.AnyTo panics on nil; *big.Float text keeps 10 digits; a CSV iterator built from the generator
function alone does not repeat its error; code.SetBasePath ignores an error before it deletes the directory;
strukt.MapToStruct is a stub; union/reflect panics on nil inner pointers; Write writes null for an invalid value.

## False alarms met, and what was done

* Properties first stated too strongly and corrected: the order in which map entries are written or iterated; the
  duplicated end-of-line of the last line; ReduceIntoSlice's partial result together with an error (documented); the
  limits of AdjustDecimalScale, which existing tests pin; OrderedTuple2Search below the first key (pinned by tests);
  NaN in comparisons.
* Analyzer imprecision found by refactored code (helpers extracted, loops rewritten, statements reordered) was always
  repaired in the analyzer: range over strings, append aliasing, re-slicing, closures that capture loop variables,
  named results changed by deferred functions, conversions between string and rune slices, searching a constant
  string for a symbolic character, `x<<k | y` as a sum, the sign of a decimal decided before a rewritten loop.
* About 60 behaviour-preserving rewrites (helpers extracted, loops turned around, switch for if, strings.Builder for
  slices of runes, lookup tables for switches) were run through the checks of their package. Two kinds were not quiet or
  not decided: S05 raises a false alarm on ExpandSlices when it is rewritten to consume its slice by re-slicing
  (`slc = slc[1:]`), because widening loses that offset plus length is constant; and J01 ran out of memory, when
  several copies ran together, on five rewrites of the lexer and parser, which were not run again. The others are quiet.

## Planted bugs

Each is in `seeded/<id>`; written from the property text and the code. "missed at first" names what was strengthened.

| bug | breaks | needs | caught by |
|---|---|---|---|
'''%("".join("* %s: %s\n"%(n['property'],n['reason']) for n in na) or "")
missed={"E01-nested-send-dropped":"the nested event now changes the value","J02-array-validates-separator-early":"documents that end right after an element were added","J03-to-slice-skips-null":"elements are analysed in every order","W02-writer-limit-per-call":"empty writes were added"}
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    s+='| %s | %s | %s | %s%s |\n'%(i,m['what_it_breaks'],m['needs'],m['property'],"; missed at first, "+missed[i] if i in missed else "")
s+='''
Besides, single-token mutations (`analyzer/mutate`) of each file that survive the existing tests were run through the
checks of the file; the surviving ones were examined, and either are equivalent, change only texts of errors, or led to
a stronger law.
'''
open('/verif/DESIGN.md','w').write(s)
