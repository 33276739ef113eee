// Command verifdriver exposes the real parser / diff code to the verification
// harness as JSON lines. It is injected by go build -overlay; nothing of it is in /repo.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/ddl"
	"github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	"github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	"github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	"github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
)

type step struct {
	I        int  `json:"i"` // index of before text, -1 = nil
	J        int  `json:"j"`
	NotValid bool `json:"notvalid"`
	Table    int  `json:"table"` // >0: DiffCreateTable on first table statements
}

type op struct {
	ID    int      `json:"id"`
	Op    string   `json:"op"`
	D     string   `json:"d"`
	Texts []string `json:"texts"`
	Steps []step   `json:"steps"`
	Par   bool     `json:"par"`
}

type parsed struct {
	OK  bool   `json:"ok"`
	Err string `json:"err"`
	Out string `json:"out"`
}

type stepOut struct {
	OK     bool   `json:"ok"`
	NoDiff bool   `json:"nodiff"`
	Err    string `json:"err"`
	Out    string `json:"out"`
	// prints of both inputs right after the step
	I string `json:"i"`
	J string `json:"j"`
}

type result struct {
	ID     int       `json:"id"`
	Panic  string    `json:"panic"`
	Hang   bool      `json:"hang"`
	Parsed []parsed  `json:"parsed"`
	Steps  []stepOut `json:"steps"`
}

// dialect adapts one dialect package.
type dialect struct {
	parse  func(string) (any, error)
	str    func(any) string
	diff   func(a, b any) (string, error)
	dtable func(a, b any, notValid bool) (string, error)
}

var dialects = map[string]dialect{
	"postgres": {
		parse: func(s string) (any, error) { d, err := postgres.NewParser(postgres.NewLexer(s)).Parse(); return d, err },
		str:   func(a any) string { return a.(*postgres.DDL).String() },
		diff: func(a, b any) (string, error) {
			x, _ := a.(*postgres.DDL)
			y, _ := b.(*postgres.DDL)
			r, err := postgres.Diff(x, y)
			return r.String(), err
		},
		dtable: func(a, b any, nv bool) (string, error) {
			get := func(v any) *postgres.CreateTableStmt {
				d, _ := v.(*postgres.DDL)
				if d == nil {
					return nil
				}
				for _, s := range d.Stmts {
					if t, ok := s.(*postgres.CreateTableStmt); ok {
						return t
					}
				}
				return nil
			}
			r, err := postgres.DiffCreateTable(get(a), get(b), postgres.DiffCreateTableUseAlterTableAddConstraintNotValid(nv))
			return r.String(), err
		},
	},
	"cockroachdb": {
		parse: func(s string) (any, error) {
			d, err := cockroachdb.NewParser(cockroachdb.NewLexer(s)).Parse()
			return d, err
		},
		str: func(a any) string { return a.(*cockroachdb.DDL).String() },
		diff: func(a, b any) (string, error) {
			x, _ := a.(*cockroachdb.DDL)
			y, _ := b.(*cockroachdb.DDL)
			r, err := cockroachdb.Diff(x, y)
			return r.String(), err
		},
		dtable: func(a, b any, nv bool) (string, error) {
			get := func(v any) *cockroachdb.CreateTableStmt {
				d, _ := v.(*cockroachdb.DDL)
				if d == nil {
					return nil
				}
				for _, s := range d.Stmts {
					if t, ok := s.(*cockroachdb.CreateTableStmt); ok {
						return t
					}
				}
				return nil
			}
			r, err := cockroachdb.DiffCreateTable(get(a), get(b), cockroachdb.DiffCreateTableUseAlterTableAddConstraintNotValid(nv))
			return r.String(), err
		},
	},
	"mysql": {
		parse: func(s string) (any, error) { d, err := mysql.NewParser(mysql.NewLexer(s)).Parse(); return d, err },
		str:   func(a any) string { return a.(*mysql.DDL).String() },
		diff: func(a, b any) (string, error) {
			x, _ := a.(*mysql.DDL)
			y, _ := b.(*mysql.DDL)
			r, err := mysql.Diff(x, y)
			return r.String(), err
		},
		dtable: func(a, b any, nv bool) (string, error) {
			get := func(v any) *mysql.CreateTableStmt {
				d, _ := v.(*mysql.DDL)
				if d == nil {
					return nil
				}
				for _, s := range d.Stmts {
					if t, ok := s.(*mysql.CreateTableStmt); ok {
						return t
					}
				}
				return nil
			}
			r, err := mysql.DiffCreateTable(get(a), get(b), mysql.DiffCreateTableUseAlterTableAddConstraintNotValid(nv))
			return r.String(), err
		},
	},
	"spanner": {
		parse: func(s string) (any, error) { d, err := spanner.NewParser(spanner.NewLexer(s)).Parse(); return d, err },
		str:   func(a any) string { return a.(*spanner.DDL).String() },
		diff: func(a, b any) (string, error) {
			x, _ := a.(*spanner.DDL)
			y, _ := b.(*spanner.DDL)
			r, err := spanner.Diff(x, y)
			return r.String(), err
		},
		dtable: func(a, b any, nv bool) (string, error) {
			get := func(v any) *spanner.CreateTableStmt {
				d, _ := v.(*spanner.DDL)
				if d == nil {
					return nil
				}
				for _, s := range d.Stmts {
					if t, ok := s.(*spanner.CreateTableStmt); ok {
						return t
					}
				}
				return nil
			}
			r, err := spanner.DiffCreateTable(get(a), get(b), spanner.DiffCreateTableUseAlterTableAddConstraintNotValid(nv))
			return r.String(), err
		},
	},
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func run(o op) (res result) {
	res.ID = o.ID
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			res.Panic = fmt.Sprintf("%v\n%s", r, st)
		}
	}()
	d, ok := dialects[o.D]
	if !ok {
		panic("driver: unknown dialect " + o.D)
	}
	vals := make([]any, len(o.Texts))
	for i, t := range o.Texts {
		v, err := d.parse(t)
		p := parsed{OK: err == nil, Err: errStr(err)}
		if err == nil {
			vals[i] = v
			p.Out = d.str(v)
		}
		res.Parsed = append(res.Parsed, p)
	}
	get := func(i int) (any, bool) {
		if i < 0 {
			return nil, true
		}
		return vals[i], vals[i] != nil
	}
	one := func(s step) (so stepOut) {
		a, ok1 := get(s.I)
		b, ok2 := get(s.J)
		if !ok1 || !ok2 {
			so.Err = "unparsed"
			return so
		}
		var out string
		var err error
		if s.Table > 0 {
			out, err = d.dtable(a, b, s.NotValid)
		} else {
			out, err = d.diff(a, b)
		}
		so.OK = err == nil
		so.NoDiff = errors.Is(err, ddl.ErrNoDifference)
		so.Err = errStr(err)
		so.Out = out
		if !o.Par {
			if a != nil {
				so.I = d.str(a)
			}
			if b != nil {
				so.J = d.str(b)
			}
		}
		return so
	}
	if o.Par {
		res.Steps = make([]stepOut, len(o.Steps))
		var wg sync.WaitGroup
		var mu sync.Mutex
		for k, s := range o.Steps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						res.Panic = fmt.Sprintf("%v", r)
						mu.Unlock()
					}
				}()
				res.Steps[k] = one(s)
			}()
		}
		wg.Wait()
		return res
	}
	for _, s := range o.Steps {
		res.Steps = append(res.Steps, one(s))
	}
	return res
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	dec := json.NewDecoder(in)
	for {
		var o op
		if err := dec.Decode(&o); err != nil {
			break
		}
		done := make(chan result, 1)
		go func() { done <- run(o) }()
		select {
		case r := <-done:
			_ = enc.Encode(r)
			_ = out.Flush()
		case <-time.After(20 * time.Second):
			_ = enc.Encode(result{ID: o.ID, Hang: true})
			_ = out.Flush()
			os.Exit(9)
		}
	}
	_ = out.Flush()
}
