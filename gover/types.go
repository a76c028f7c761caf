package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Mapping of Go types to Verus (ghost) types.

type Unit struct {
	locals     map[string][]local // locals of the functions when the contracts were written
	alias      map[*FuncDecl]map[string][]string
	prog       *Program
	con        *Contracts
	prop       string // property being checked ("" = every clause)
	lits       map[string]int
	litIDs     []string
	structs    map[string]*types.Struct // Verus struct name -> Go struct
	sorder     []string
	globals    map[string]string // verus decl text
	gorder     []string
	fconsts    map[string]bool
	obls       []*Obl
	notes      map[string]bool
	assumes    map[string]bool // models used
	gwrites    map[types.Object]bool
	inlined    map[string]bool
	funcsUC    map[string]bool
	needed     map[string]bool // contracted callees met
	closures   []*closureJob
	probes     bool
	lean       bool
	world      [][2]string
	specFields map[string]string // fields of the structs declared in the specs
}

type Obl struct {
	ID   int
	Func string
	Kind string
	Name string
	Pos  string
	Text string
	Line int
}

func (u *Unit) lit(s string) string {
	if s == "" {
		return "sempty()"
	}
	if id, ok := u.lits[s]; ok {
		return litName(id)
	}
	id := len(u.litIDs) + 1
	u.lits[s] = id
	u.litIDs = append(u.litIDs, s)
	return litName(id)
}

func litName(id int) string { return fmt.Sprintf("lit_%d()", id) }

var rustKw = map[string]bool{"type": true, "ref": true, "match": true, "fn": true, "let": true, "mut": true, "move": true,
	"in": true, "loop": true, "impl": true, "self": true, "super": true, "use": true, "where": true, "mod": true, "as": true,
	"box": true, "final": true, "do": true, "abstract": true, "try": true, "async": true, "await": true, "dyn": true,
	"trait": true, "enum": true, "struct": true, "static": true, "crate": true, "pub": true, "spec": true, "proof": true,
	"exec": true, "ghost": true, "open": true, "closed": true, "assert": true, "assume": true, "requires": true, "ensures": true, "is": true,
	"tracked": true, "forall": true, "exists": true, "while": true, "unsafe": true, "extern": true, "yield": true, "override": true, "macro": true, "choose": true, "decreases": true, "broadcast": true, "invariant": true, "has": true, "global": true, "layout": true, "via": true, "when": true, "by": true, "int": true, "nat": true, "virtual": true, "priv": true}

func rid(s string) string {
	if rustKw[s] {
		return s + "_"
	}
	if s == "_" {
		return "blank_"
	}
	return s
}

func qual(p *types.Package) string { return p.Name() }

func (u *Unit) vtype(T types.Type) string {
	if m, ok := u.con.Types[types.TypeString(T, qual)]; ok {
		return m[0]
	}
	switch x := T.(type) {
	case *types.Alias:
		return u.vtype(types.Unalias(x))
	case *types.Named:
		if x.Obj().Pkg() == nil && x.Obj().Name() == "error" {
			return "GoErr"
		}
		if st, ok := x.Underlying().(*types.Struct); ok {
			if st.NumFields() == 0 {
				return "()"
			}
			if x.Obj().Pkg() == nil || !strings.HasPrefix(x.Obj().Pkg().Path(), u.prog.Module) {
				return "Opq"
			}
			n := rid(x.Obj().Name())
			if _, ok := u.structs[n]; !ok {
				u.structs[n] = st
				u.sorder = append(u.sorder, n)
			}
			return n
		}
		return u.vtype(x.Underlying())
	case *types.Basic:
		switch x.Kind() {
		case types.String, types.UntypedString:
			return "S"
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.Uint8:
			return "u8"
		case types.Uint, types.Uint64, types.Uintptr:
			return "u64"
		case types.UntypedNil:
			return "Opq"
		case types.Float32, types.Float64, types.UntypedFloat:
			return "Opq"
		}
		return "int"
	case *types.Pointer:
		return "Option<" + u.vtype(x.Elem()) + ">"
	case *types.Slice:
		return "Sl<" + u.vtype(x.Elem()) + ">"
	case *types.Map:
		return "Mp<" + u.vtype(x.Key()) + ", " + u.vtype(x.Elem()) + ">"
	case *types.Chan:
		return "Ch<" + u.vtype(x.Elem()) + ">"
	case *types.Struct:
		if x.NumFields() == 0 {
			return "()"
		}
		return "Opq"
	case *types.Tuple:
		var p []string
		for i := 0; i < x.Len(); i++ {
			p = append(p, u.vtype(x.At(i).Type()))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return "Opq"
}

func (u *Unit) zero(T types.Type) string {
	if m, ok := u.con.Types[types.TypeString(T, qual)]; ok {
		if m[1] != "" {
			return m[1]
		}
		return u.zeroOf(m[0], T)
	}
	return u.zeroOf(u.vtype(T), T)
}

func (u *Unit) zeroOf(v string, T types.Type) string {
	switch {
	case v == "S":
		return "sempty()"
	case v == "bool":
		return "false"
	case v == "u8":
		return "0u8"
	case v == "u64":
		return "0u64"
	case v == "int":
		return "0int"
	case v == "()":
		return "()"
	case v == "GoErr":
		return "GoErr::Nil"
	case v == "Opq":
		return "opq_nil()"
	case v == "Buf":
		return "buf_empty()"
	case strings.HasPrefix(v, "Option<"):
		return "None"
	case strings.HasPrefix(v, "Sl<"):
		return "sl_nil::<" + v[3:len(v)-1] + ">()"
	case strings.HasPrefix(v, "Mp<"):
		return "mp_nil::<" + v[3:len(v)-1] + ">()"
	case strings.HasPrefix(v, "Ch<"):
		return "ch_nil::<" + v[3:len(v)-1] + ">()"
	}
	if st, ok := u.structs[v]; ok {
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			if u.con.Erased[v+"."+rid(st.Field(i).Name())] {
				fs = append(fs, rid(st.Field(i).Name())+": ()")
				continue
			}
			fs = append(fs, rid(st.Field(i).Name())+": "+u.zero(st.Field(i).Type()))
		}
		return v + " { " + strings.Join(fs, ", ") + " }"
	}
	return "arbitrary()"
}

// isRef: types whose variables stand for shared mutable state (channels,
// writers): passed by reference, must not be copied.
func (u *Unit) isRef(T types.Type) bool {
	v := u.vtype(T)
	return strings.HasPrefix(v, "Ch<") || v == "Buf"
}

func (u *Unit) constant(v constant.Value, T types.Type) (string, bool) {
	vt := u.vtype(T)
	switch v.Kind() {
	case constant.String:
		if vt == "Sl<u8>" {
			return "Sl { s: " + u.lit(constant.StringVal(v)) + ", nn: true }", true
		}
		return u.lit(constant.StringVal(v)), true
	case constant.Bool:
		return fmt.Sprint(constant.BoolVal(v)), true
	case constant.Int:
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			return "", false
		}
		switch vt {
		case "u64":
			return b.String() + "u64", true
		case "u8":
			return b.String() + "u8", true
		case "Opq", "GoErr":
			return "", false
		}
		if b.Sign() < 0 {
			return "(" + b.String() + "int)", true
		}
		return b.String() + "int", true
	case constant.Float:
		if vt == "int" || vt == "u64" {
			return u.constant(constant.ToInt(v), T)
		}
	}
	return "", false
}

// declared structs of a package, so that specifications can name them
func (u *Unit) declareStructs(pk *Pkg) {
	sc := pk.Types.Scope()
	names := sc.Names()
	sort.Strings(names)
	for _, n := range names {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			u.vtype(tn.Type())
		}
	}
}

func (u *Unit) structDecls() string {
	var sb strings.Builder
	for i := 0; i < len(u.sorder); i++ {
		n := u.sorder[i]
		st := u.structs[n]
		sb.WriteString("pub struct " + n + " {\n")
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			fmt.Fprintf(&sb, "    pub %s: %s,\n", rid(f.Name()), u.fvtype(n, f))
		}
		sb.WriteString("}\n")
		sb.WriteString("pub open spec fn zero_" + n + "() -> " + n + " { " + u.zeroOf(n, nil) + " }\n")
	}
	return sb.String()
}

func (u *Unit) fieldType(sn, f string) string {
	if sn == "World" {
		for _, x := range u.con.World {
			if x[0] == f {
				return x[1]
			}
		}
	}
	if T, ok := u.specFields[sn+"."+f]; ok {
		return T
	}
	if st, ok := u.structs[sn]; ok {
		for i := 0; i < st.NumFields(); i++ {
			if rid(st.Field(i).Name()) == f {
				return u.fvtype(sn, st.Field(i))
			}
		}
	}
	return "UnknownFieldType_" + sn + "_" + f
}

// fvtype is the model type of a struct field: () when the model leaves it out.
func (u *Unit) fvtype(sn string, f *types.Var) string {
	if u.con.Erased[sn+"."+rid(f.Name())] {
		return "()"
	}
	return u.vtype(f.Type())
}
