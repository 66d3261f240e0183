package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The list of superseded locations, as seen by whoever empties it: one location at a time is
// looked at; it is discarded, then forgotten, and nothing else is forgotten.

// staleOf: the list the run began with, wherever it is now.
func (d *bt) staleOf(st *State) (ObjID, *Obj) {
	p, ok := d.tree(st).F["$orig"].(VPtr)
	if !ok {
		p, ok = d.tree(st).F[d.n.tStale].(VPtr)
	}
	if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != "stale" {
		return 0, nil
	}
	return p.O, st.Objs[p.O]
}

func symOf(o *Obj, f string) string { s, _ := o.F[f].(VSym); return s.S }

func (d *bt) staleRange(K *Kern, st *State, x *ssa.Range) ([]R, bool) {
	v := K.val(st, x.X)
	switch p := v.(type) {
	case VNil:
		return one(st, v), true
	case VPtr:
		if o := st.Objs[p.O]; o != nil && o.Typ == "stale" {
			w := st.wr(p.O)
			w.F["$iter"], w.F["$curst"] = VSym{"run"}, VSym{""}
			if st.Flags["touch"] != "" || st.Flags["discard"] != "" {
				w.F["$after"] = VBool{true}
			}
			return one(st, v), true
		}
	}
	return nil, false
}

// staleMove: the iteration leaves the current location.
func (d *bt) staleMove(st *State, id ObjID) {
	w := st.wr(id)
	switch symOf(w, "$curst") {
	case "look":
		w.F["$skip"] = VBool{true}
	case "forgotten":
		d.fail("C12", "a location is forgotten after it was discarded", "%s may forget a location without discarding it%s", fnName(d.fn), trOf(st))
	case "discarded":
		w.F["$dup"] = VBool{true}
	}
	delete(w.F, "$cur")
	w.F["$curst"] = VSym{""}
}

func (d *bt) staleNext(K *Kern, st *State, x *ssa.Next) ([]R, bool) {
	v := K.val(st, x.Iter)
	end := VTup{[]Val{VBool{false}, VTop{"end"}, VTop{"end"}}}
	p, ok := v.(VPtr)
	if !ok {
		if _, isNil := v.(VNil); isNil {
			return one(st, end), true
		}
		return nil, false
	}
	o := st.Objs[p.O]
	if o == nil || o.Typ != "stale" {
		return nil, false
	}
	rt, ok := x.Iter.(*ssa.Range)
	if !ok {
		return nil, false
	}
	mt, ok := rt.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	kt, ok := mt.Key().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	d.staleMove(st, p.O)
	t := st.clone()
	t.wr(p.O).F["$iter"] = VSym{"done"}
	cur := VStruct{F: map[string]Val{}}
	for i := 0; i < kt.NumFields(); i++ {
		cur.F[kt.Field(i).Name()] = d.freshInt(K, st, 0)
	}
	w := st.wr(p.O)
	w.F["$cur"], w.F["$curst"] = cur, VSym{"look"}
	return []R{{t, end}, {st, VTup{[]Val{VBool{true}, cur, VTop{"value"}}}}}, true
}

func (d *bt) sameRef(st *State, o *Obj, args []Val) bool {
	cur, ok := o.F["$cur"].(VStruct)
	if !ok {
		return false
	}
	for i, f := range d.n.staleFields(d.P) {
		a, ok1 := cur.F[f].(VInt)
		b, ok2 := args[i].(VInt)
		if !ok1 || !ok2 || !st.Cons.entailsEQ(a.L.sub(b.L)) {
			return false
		}
	}
	return true
}

func (d *bt) staleDelete(K *Kern, st *State, id ObjID, key Val, at ssa.Instruction) {
	o := st.Objs[id]
	k, ok := key.(VStruct)
	if !ok {
		K.undecided(at, "an unknown location is forgotten")
	}
	var a []Val
	for _, f := range d.n.staleFields(d.P) {
		a = append(a, k.F[f])
	}
	if !d.sameRef(st, o, a) {
		d.fail("C12", "only what was discarded is forgotten", "a remembered location is forgotten at %s in %s although another one was discarded%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
		return
	}
	w := st.wr(id)
	switch symOf(w, "$curst") {
	case "look":
		w.F["$curst"] = VSym{"forgotten"}
	case "discarded":
		w.F["$curst"] = VSym{"gone"}
	}
}

// discardCall: the discard callback.
func (d *bt) discardCall(K *Kern, st *State, args []Val, at ssa.Instruction) []R {
	id, o := d.staleOf(st)
	e := st.clone()
	e.Flags["cbfailed"] = "discard"
	bad := func(rule, f string) {
		d.fail("C12", rule, f+" at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
	}
	if o == nil || len(args) != 3 || !d.sameRef(st, o, args) {
		bad("only remembered locations are discarded", "something else than the number, offset and length of a remembered location is discarded")
		d.fail("C11", "only remembered locations are discarded", "something else than the number, offset and length of a remembered location is discarded at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
		return []R{{e, VErr{"discard"}}, {st, VNil{}}}
	}
	switch symOf(o, "$curst") {
	case "discarded", "gone":
		bad("a location is discarded once", "a location may be discarded a second time")
	case "forgotten":
		bad("a location is forgotten after it was discarded", "a location is forgotten before it is discarded, so a failure loses it,")
		st.wr(id).F["$curst"] = VSym{"gone"}
	case "look":
		st.wr(id).F["$curst"] = VSym{"discarded"}
	}
	if gbool(o, "$dup") {
		bad("what was discarded is forgotten at once", "a location already discarded is still remembered when the next discard may fail")
	}
	return []R{{e, VErr{"discard"}}, {st, VNil{}}}
}

// staleStored: the list is replaced as a whole.
func (d *bt) staleStored(K *Kern, st *State, old, v Val, at ssa.Instruction) {
	bad := func(rule, f string) {
		d.fail("C12", rule, f+" at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
	}
	p, ok := old.(VPtr)
	if !d.trav {
		if _, isNil := old.(VNil); !isNil && (!ok || Val(p) != v) {
			bad("no location is forgotten undiscarded", "the remembered locations may be dropped without being discarded")
		}
		return
	}
	if !ok {
		if _, isNil := old.(VNil); !isNil {
			bad("no location is forgotten undiscarded", "the remembered locations are dropped without being discarded")
		}
		return
	}
	o := st.Objs[p.O]
	if o == nil || o.Typ != "stale" {
		return
	}
	if q, ok := v.(VPtr); ok && q == p {
		return
	}
	w := st.wr(d.gv(st, bTree).(VPtr).O)
	w.F["$emptied"] = VBool{gbool(o, "$after")}
}

// staleExit: nothing discarded may be left on the list; on success nothing at all.
func (d *bt) staleExit(K *Kern, st *State, name string, failed, needAfter bool) {
	id, o := d.staleOf(st)
	bad := func(rule, f string) { d.fail("C12", rule, f+"%s", name, trOf(st)) }
	if o != nil {
		switch c := symOf(o, "$curst"); {
		case c == "discarded" || gbool(o, "$dup"):
			bad("what was discarded is forgotten at once", "%s may return with a discarded location still remembered, so a retry discards it again")
			return
		case c == "forgotten":
			bad("a location is forgotten after it was discarded", "%s may forget a location without discarding it")
			return
		}
	}
	if o != nil && !gbool(o, "$made") && d.tree(st).F[d.n.tStale] != Val(VPtr{id, ""}) && (symOf(o, "$iter") != "done" || gbool(o, "$skip")) {
		bad("no location is forgotten undiscarded", "%s may return with the remembered locations dropped although not all were discarded")
		return
	}
	if failed {
		return
	}
	if o != nil {
		if gbool(o, "$made") {
			return
		}
		if symOf(o, "$iter") != "done" || gbool(o, "$skip") {
			bad("all remembered locations are discarded", "%s may succeed although not every remembered location was discarded")
		} else if needAfter && !gbool(o, "$after") {
			bad("locations are discarded after all were remembered", "%s may discard the remembered locations before those of the tree's own nodes are among them")
		}
		return
	}
	v, known := d.tree(st).F[d.n.tStale]
	if _, isNil := v.(VNil); !known || !isNil {
		bad("all remembered locations are discarded", "%s may succeed although the remembered locations were not discarded")
		return
	}
	if needAfter {
		if e, ok := d.tree(st).F["$emptied"].(VBool); ok && !e.B {
			bad("locations are discarded after all were remembered", "%s may discard the remembered locations before those of the tree's own nodes are among them")
		}
	}
}
