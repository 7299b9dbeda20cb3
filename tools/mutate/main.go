// mutate lists single-edit mutants of Go files as JSON lines {file, off, end, text, op, line, old}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Old  string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		seen := map[string]bool{}
		emit := func(a, b token.Pos, text, op string) {
			m := mutant{f, off(a), off(b), text, op, fset.Position(a).Line, ""}
			m.Old = string(src[m.Off:m.End])
			if m.Old == text {
				return
			}
			k := fmt.Sprint(m.Off, ",", m.End, ",", text)
			if seen[k] {
				return
			}
			seen[k] = true
			enc.Encode(m)
		}
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var fnStack []*ast.FuncType
		var walk func(n ast.Node)
		lastIsError := func() (bool, int) {
			if len(fnStack) == 0 {
				return false, 0
			}
			r := fnStack[len(fnStack)-1].Results
			if r == nil {
				return false, 0
			}
			n := 0
			for _, f := range r.List {
				n += max(1, len(f.Names))
			}
			id, ok := r.List[len(r.List)-1].Type.(*ast.Ident)
			return ok && id.Name == "error", n
		}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.FuncDecl:
					if n.Body != nil {
						fnStack = append(fnStack, n.Type)
						walk(n.Body)
						fnStack = fnStack[:len(fnStack)-1]
					}
					return false
				case *ast.FuncLit:
					fnStack = append(fnStack, n.Type)
					walk(n.Body)
					fnStack = fnStack[:len(fnStack)-1]
					return false
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<=", ">", "!="}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<", "!="}, token.GEQ: {">", "<="},
						token.EQL: {"!=", "<=", ">="}, token.NEQ: {"==", "<", ">"}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/", "+"}, token.QUO: {"*"}, token.REM: {"*"},
						token.OR: {"&"}, token.AND: {"|"},
					}
					for _, t := range alt[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, "binop")
					}
					switch n.Op {
					case token.ADD, token.SUB, token.MUL, token.LAND, token.LOR:
						emit(n.Pos(), n.End(), str(n.X), "left")
						emit(n.Pos(), n.End(), str(n.Y), "right")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit(n.Pos(), n.End(), str(n.X), "unop")
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+str(n.Cond)+")", "negate")
					emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") && false", "iffalse")
					emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") || true", "iftrue")
					if n.Else != nil {
						emit(n.Body.End(), n.Else.End(), "", "noelse")
					}
				case *ast.ForStmt:
					if n.Cond != nil {
						emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") && false", "loopfalse")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseInt(n.Value, 0, 64)
						if err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "lit+1")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "lit-1")
							}
							if v > 2 {
								emit(n.Pos(), n.End(), fmt.Sprint(v*2), "lit*2")
							}
						}
					}
					if n.Kind == token.CHAR {
						emit(n.Pos(), n.End(), "'#'", "char")
					}
				case *ast.Ident:
					switch n.Name {
					case "true":
						emit(n.Pos(), n.End(), "false", "bool")
					case "false":
						emit(n.Pos(), n.End(), "true", "bool")
					}
				case *ast.SelectorExpr:
					alt := map[string][]string{"SeekStart": {"SeekCurrent"}, "SeekCurrent": {"SeekStart", "SeekEnd"}, "SeekEnd": {"SeekCurrent"},
						"BigEndian": {"LittleEndian"}, "RLock": {"TryRLock"}, "Likes": {"Dislikes"}, "Dislikes": {"Likes"}, "ReadFull": {"ReadAtLeast"},
						"O_CREATE": {"O_EXCL"}, "O_TRUNC": {"O_APPEND"}, "AppendUint64": {"AppendUint32"}}
					for _, a := range alt[n.Sel.Name] {
						emit(n.Sel.Pos(), n.Sel.End(), a, "sel")
					}
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "", "delstmt")
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "", "delstmt")
					if n.Tok == token.INC {
						emit(n.TokPos, n.End(), "--", "incdec")
					} else {
						emit(n.TokPos, n.End(), "++", "incdec")
					}
				case *ast.SendStmt:
					emit(n.Pos(), n.End(), "", "delstmt")
				case *ast.DeferStmt:
					emit(n.Pos(), n.End(), "", "delstmt")
					emit(n.Pos(), n.End(), str(n.Call), "undefer")
				case *ast.GoStmt:
					emit(n.Pos(), n.End(), str(n.Call), "ungo")
				case *ast.BranchStmt:
					emit(n.Pos(), n.End(), "", "delstmt")
					if n.Label == nil {
						if n.Tok == token.BREAK {
							emit(n.Pos(), n.End(), "continue", "branch")
						} else if n.Tok == token.CONTINUE {
							emit(n.Pos(), n.End(), "break", "branch")
						}
					}
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN || n.Tok != token.DEFINE {
						emit(n.Pos(), n.End(), "", "delstmt")
						if n.Tok == token.ASSIGN {
							s := ""
							for i, r := range n.Rhs {
								if i > 0 {
									s += ", "
								}
								s += str(r)
							}
							b := ""
							for i := range n.Lhs {
								if i > 0 {
									b += ", "
								}
								b += "_"
							}
							emit(n.Pos(), n.End(), b+" = "+s, "dropassign")
						}
						if n.Tok == token.ADD_ASSIGN {
							emit(n.TokPos, n.TokPos+2, "-=", "assignop")
							emit(n.TokPos, n.TokPos+2, "=", "assignop")
						}
						if n.Tok == token.SUB_ASSIGN {
							emit(n.TokPos, n.TokPos+2, "+=", "assignop")
						}
					}
				case *ast.ReturnStmt:
					isErr, cnt := lastIsError()
					if isErr && len(n.Results) == cnt {
						last := n.Results[cnt-1]
						if str(last) != "nil" {
							emit(last.Pos(), last.End(), "nil", "retnil")
						}
					}
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" && id.Name != "err" {
							_ = id
						}
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						emit(n.Args[0].Pos(), n.Args[1].End(), str(n.Args[1])+", "+str(n.Args[0]), "swapargs")
					}
					if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 1 {
						alt := map[string]string{"uint64": "uint64(uint32", "int64": "int64(int32", "uint32": "uint32(uint16", "int": "int(int32", "uint": "uint(uint32"}
						if a, ok := alt[id.Name]; ok {
							emit(n.Pos(), n.End(), a+"("+str(n.Args[0])+"))", "narrow")
							emit(n.Pos(), n.End(), id.Name+"(uint8("+str(n.Args[0])+"))", "narrow8")
						}
						if id.Name == "append" {
							break
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), "", "nolow")
					}
					if n.High != nil {
						emit(n.High.Pos(), n.High.End(), "", "nohigh")
					}
				case *ast.CompositeLit:
					for i, e := range n.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							if _, isID := kv.Key.(*ast.Ident); isID {
								end := kv.End()
								if i+1 < len(n.Elts) {
									end = n.Elts[i+1].Pos()
								}
								emit(kv.Pos(), end, "", "delfield")
							}
						}
					}
				case *ast.CaseClause:
				case *ast.CommClause:
				}
				return true
			})
			// adjacent statement swaps
			ast.Inspect(n, func(n ast.Node) bool {
				var list []ast.Stmt
				switch n := n.(type) {
				case *ast.BlockStmt:
					list = n.List
				case *ast.CaseClause:
					list = n.Body
				case *ast.CommClause:
					list = n.Body
				}
				for i := 0; i+1 < len(list); i++ {
					a, b := list[i], list[i+1]
					if _, ok := b.(*ast.ReturnStmt); ok {
						continue
					}
					between := string(src[off(a.End()):off(b.Pos())])
					emit(a.Pos(), b.End(), str(b)+between+str(a), "swapstmt")
				}
				return true
			})
		}
		for _, d := range file.Decls {
			walk(d)
		}
	}
}
