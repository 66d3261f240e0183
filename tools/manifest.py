#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
C={
'C01':('abstract interpretation of the comparator bodies over finite orderings','every comparator path classified by type test and ordering of the two keys; trusts the type checker, bytes.Compare, strings.Compare and time.Time methods'),
'C16':('interprocedural lock-set dataflow','every access to a guarded field, in every calling context and path, holds its lock; trusts sync.Mutex and the Go memory model; the guard table is inferred from type structure and confirmed by hand'),
'C17':('interprocedural lock-state dataflow, lock-order graph','all acquire/release sequences of all entry points; callback effects assumed not to re-enter'),
'C18':('interprocedural path-sensitive error-flow analysis','every call site an external error can arrive at; all paths end in a certainly non-nil error or panic'),
'C02':('abstract interpretation to fixpoint: shape (sub-tree segments), key-sequence and linear-number domains, tabulated summaries for recursion','every operation, every starting tree assumed well formed, every key/index case; contents tracked as sequences of segments; trusts cstruct-free Go subset, comparator consistency (C01)'),
'C03':('abstract interpretation to fixpoint: shape, key-sequence and linear-number domains, tabulated summaries for recursion','inductive: any well-formed tree before, exact counts after; all index and bisect cases; integer overflow of counts ignored'),
'C04':('abstract interpretation to fixpoint: shape and colour/black-height domains, tabulated summaries for recursion','inductive invariant of every mutating operation from any balanced tree'),
'C08':('abstract interpretation to fixpoint, two-run comparison: all nodes resident against residency unknown','every map operation, touch and report from any well-formed tree with any residency; loads taken by contract; the children of a node appear as summarised segments'),
'C09':('abstract interpretation to fixpoint with a changed-node monitor (ghost marks up to the root) and a self-contract for the recursive flush','every mutating operation outside the bodies of split and rebalance, every flush path, any height and fan-out'),
'C10':('abstract interpretation of image writer and reader to one common layout: typed byte-string pieces, loops folded over the entries','any node kind, any number of entries; trusts that cstruct packs a struct in field order and that the client pack and unpack callbacks are inverse'),
'C11':('abstract interpretation with an effect monitor on the storage callbacks and the remembered locations','every operation and visiting function; restructuring helpers by contract'),
'C12':('abstract interpretation with a typestate on stored locations (in use, remembered, discarded, forgotten)','every helper that supersedes a node, prune and discard on success and failure paths'),
'C15':('abstract interpretation to fixpoint with a residency/changed typestate and self-contracts for recursion','flush, purge, eviction helper, layout report and every load, any height and fan-out'),
'C19':('abstract interpretation with an event-order monitor: no step that can fail after the first change','every updating operation; restructuring helpers by contract'),
'C20':('abstract interpretation with an effect monitor','every query and whole-tree operation, all paths'),
'C21':('abstract interpretation of each recursive visitor against its own contract, children as summarised segments with exact coverage','any height and fan-out; each child visited exactly once'),
'C23':('abstract interpretation with linear arithmetic and a hit/miss typestate per visit','every report and every counted visit; layout sums per node'),
'C24':('abstract interpretation to fixpoint with linear arithmetic over item totals','any tree, any index'),
'C13':('abstract interpretation to fixpoint: doubly-linked-list segment domain with linear counters','every primitive that moves a node between states and every operation touching the lists, from any well-formed cache state; lists of any length as summarised segments'),
'C14':('abstract interpretation to fixpoint: list-segment and linear-number domains over the evictor and its triggers','every path of the trigger and of the background evictor, any list length and limits; progress under fair scheduling of the lock assumed'),
'C05':('abstract interpretation to fixpoint: ghost order of all keys over node segments; restructuring judged one level at a time by its own contract','every operation by key from any well-formed tree; split, borrow and merge from any fill, position and height; trusts the in-memory tree by its specification (C02) and, inside the operations, loading and restructuring by contracts that are judged in runs of their own'),
'C06':('abstract interpretation to fixpoint with linear arithmetic over item totals and running sums','every operation by index, bisect, length, restructuring, reload and each function that builds or updates running sums, any number of children and any height; integer overflow ignored'),
'C07':('abstract interpretation to fixpoint with linear arithmetic over key counts','constructor limits; counts of every node after split, borrow and merge at any level by self-contract; uniform depth by keeping levels apart'),
'C22':('abstract interpretation from consistent and from arbitrary nodes with linear arithmetic; self-contracts for recursion','an error-free outcome entails every relation the statement names; a consistent node entails no error; any fan-out and height; the checks of nodes below are taken by the same contract'),
}
NA={}
checks=[]
for p in props:
    if p in C:
        t,n=C[p]
        checks.append({'property':p,'quick_cmd':f'./run.sh {p}','thorough_cmd':f'./run.sh {p}','technique':t,'level':'other','level_note':n})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,
 'not_applicable':[{'property':p,'reason':NA.get(p,'not claimed yet: analysis under construction')} for p in props if p not in C],
 'notes':'No hooks in /repo. See DESIGN.md.'}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
print(len(checks),'checks')
