// mutate lists or applies small syntactic changes to a Go file.
//   mutate list FILE          one line per mutant: INDEX LINE OPERATOR DESCRIPTION
//   mutate apply FILE INDEX   prints the mutated file
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}
type mutant struct {
	line  int
	op    string
	desc  string
	edits []edit
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[2], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	pos := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
	var ms []mutant
	add := func(n ast.Node, op, desc string, e ...edit) {
		if len(desc) > 100 {
			desc = desc[:100]
		}
		ms = append(ms, mutant{fs.Position(n.Pos()).Line, op, strings.ReplaceAll(desc, "\n", " "), e})
	}
	repl := func(n ast.Node, op, to string) {
		add(n, op, text(n)+" -> "+to, edit{pos(n.Pos()), pos(n.End()), to})
	}
	isLog := func(n ast.Node) bool {
		t := text(n)
		return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "routines.")
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.XOR: {"|"}, token.REM: {"/"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.ExprStmt:
			if isLog(x) {
				return false
			}
			add(x, "del", "delete: "+text(x), edit{pos(x.Pos()), pos(x.End()), ""})
		case *ast.DeferStmt:
			add(x, "del", "delete: "+text(x), edit{pos(x.Pos()), pos(x.End()), ""})
			add(x, "undefer", "undefer: "+text(x), edit{pos(x.Pos()), pos(x.Call.Pos()), ""})
		case *ast.GoStmt:
			add(x, "ungo", "run inline: "+text(x), edit{pos(x.Pos()), pos(x.Call.Pos()), ""})
		case *ast.IncDecStmt:
			repl(x, "del", "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				to := ""
				var used []string
				for _, r := range x.Rhs {
					used = append(used, text(r))
				}
				for range used {
					to += "_, "
				}
				if len(used) > 0 {
					to = strings.TrimSuffix(to, ", ") + " = " + strings.Join(used, ", ")
					if len(x.Lhs) != len(x.Rhs) {
						to = ""
					}
				}
				repl(x, "noassign", to)
			}
		case *ast.BranchStmt:
			repl(x, "del", "")
		case *ast.IfStmt:
			add(x.Cond, "neg", "negate: "+text(x.Cond), edit{pos(x.Cond.Pos()), pos(x.Cond.End()), "!(" + text(x.Cond) + ")"})
			add(x.Cond, "true", "always: "+text(x.Cond), edit{pos(x.Cond.Pos()), pos(x.Cond.End()), "(" + text(x.Cond) + ") || true"})
			add(x.Cond, "false", "never: "+text(x.Cond), edit{pos(x.Cond.Pos()), pos(x.Cond.End()), "(" + text(x.Cond) + ") && false"})
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				add(x, "op", text(x)+" with "+s, edit{pos(x.OpPos), pos(x.OpPos) + len(x.Op.String()), s})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					repl(x, "const", fmt.Sprint(v+1))
					if v > 0 {
						repl(x, "const", fmt.Sprint(v-1))
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
				repl(x, "string", x.Value[:len(x.Value)-1]+`x"`)
			}
		case *ast.CaseClause:
			if len(x.Body) > 0 && len(x.List) > 0 {
				add(x, "emptycase", "empty case: "+text(x), edit{pos(x.Body[0].Pos()), pos(x.Body[len(x.Body)-1].End()), ""})
			}
		case *ast.KeyValueExpr:
			if _, ok := x.Value.(*ast.FuncLit); !ok {
				e := pos(x.End())
				for e < len(src) && (src[e] == ' ' || src[e] == ',') {
					e++
				}
				add(x, "delkv", "drop: "+text(x), edit{pos(x.Pos()), e, ""})
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 && text(x.Results[0]) == "err" {
				repl(x, "retnil", "return nil")
			}
		case *ast.CallExpr:
			// swap two arguments
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if text(a) != text(b) && !isLog(x) {
					add(x, "argswap", "swap arguments: "+text(x), edit{pos(a.Pos()), pos(a.End()), text(b)}, edit{pos(b.Pos()), pos(b.End()), text(a)})
				}
			}
		case *ast.BlockStmt:
			// swap adjacent statements
			for i := 0; i+1 < len(x.List); i++ {
				a, b := x.List[i], x.List[i+1]
				_, l1 := a.(*ast.ExprStmt)
				_, l2 := b.(*ast.ExprStmt)
				if l1 && isLog(a) || l2 && isLog(b) {
					continue
				}
				add(a, "stmtswap", "swap: "+text(a)+" <> "+text(b), edit{pos(a.Pos()), pos(a.End()), text(b)}, edit{pos(b.Pos()), pos(b.End()), text(a)})
			}
		}
		return true
	})
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\t%s\n", i, m.line, m.op, m.desc)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[3])
	es := ms[k].edits
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	out := string(src)
	for _, e := range es {
		out = out[:e.from] + e.text + out[e.to:]
	}
	fmt.Print(out)
}
