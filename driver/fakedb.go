// Package ddlctl: stands in for pkg/ddlctl/import.go in an overlay build. It registers database drivers
// of the three names that talk to the recording database of the checks instead of a real one.
package ddlctl

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"io"
	"net"
	"os"
	"sync"
)

func init() {
	for _, n := range []string{"mysql", "postgres", "spanner"} {
		sql.Register(n, &vdriver{n})
	}
}

type vdriver struct{ name string }

type vconn struct {
	mu sync.Mutex
	c  net.Conn
	r  *bufio.Reader
}

type vreply struct {
	Err  string          `json:"err"`
	Cols []string        `json:"cols"`
	Rows [][]interface{} `json:"rows"`
}

func (d *vdriver) Open(dsn string) (driver.Conn, error) {
	c, err := net.Dial("unix", os.Getenv("VERIF_DB"))
	if err != nil {
		return nil, err
	}
	v := &vconn{c: c, r: bufio.NewReaderSize(c, 1<<16)}
	if _, err := v.call(map[string]interface{}{"op": "open", "driver": d.name, "dsn": dsn, "scn": os.Getenv("VERIF_SCN")}); err != nil {
		c.Close()
		return nil, err
	}
	return v, nil
}

func (v *vconn) call(m map[string]interface{}) (*vreply, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	b, err := json.Marshal(m)
	if err != nil {
		return nil, err
	}
	if _, err := v.c.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := v.r.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r vreply
	dec := json.NewDecoder(bytesReader(line))
	dec.UseNumber()
	if err := dec.Decode(&r); err != nil {
		return nil, err
	}
	if r.Err != "" {
		return nil, errors.New(r.Err)
	}
	return &r, nil
}

type byteReader struct {
	b []byte
}

func bytesReader(b []byte) io.Reader { return &byteReader{b} }

func (r *byteReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func vargs(args []driver.NamedValue) []interface{} {
	out := []interface{}{}
	for _, a := range args {
		switch x := a.Value.(type) {
		case []byte:
			out = append(out, string(x))
		default:
			out = append(out, x)
		}
	}
	return out
}

func (v *vconn) Ping(context.Context) error {
	_, err := v.call(map[string]interface{}{"op": "ping"})
	return err
}

func (v *vconn) Close() error {
	_, err := v.call(map[string]interface{}{"op": "close"})
	v.c.Close()
	return err
}

func (v *vconn) Begin() (driver.Tx, error) { return v.BeginTx(context.Background(), driver.TxOptions{}) }
func (v *vconn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	if _, err := v.call(map[string]interface{}{"op": "begin"}); err != nil {
		return nil, err
	}
	return &vtx{v}, nil
}

type vtx struct{ v *vconn }

func (t *vtx) Commit() error   { _, err := t.v.call(map[string]interface{}{"op": "commit"}); return err }
func (t *vtx) Rollback() error { _, err := t.v.call(map[string]interface{}{"op": "rollback"}); return err }

func (v *vconn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if _, err := v.call(map[string]interface{}{"op": "exec", "sql": q, "args": vargs(args)}); err != nil {
		return nil, err
	}
	return driver.ResultNoRows, nil
}

func (v *vconn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := v.call(map[string]interface{}{"op": "query", "sql": q, "args": vargs(args)})
	if err != nil {
		return nil, err
	}
	return &vrows{r: r, v: v}, nil
}

func (v *vconn) Prepare(q string) (driver.Stmt, error) { return &vstmt{v, q}, nil }

type vstmt struct {
	v *vconn
	q string
}

func (s *vstmt) Close() error  { return nil }
func (s *vstmt) NumInput() int { return -1 }
func named(args []driver.Value) []driver.NamedValue {
	out := []driver.NamedValue{}
	for i, a := range args {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return out
}

func (s *vstmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.v.ExecContext(context.Background(), s.q, named(args))
}

func (s *vstmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.v.QueryContext(context.Background(), s.q, named(args))
}

type vrows struct {
	r *vreply
	v *vconn
	i int
}

func (r *vrows) Columns() []string { return r.r.Cols }
func (r *vrows) Close() error      { return nil }
func (r *vrows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	row := r.r.Rows[r.i]
	r.i++
	// a row of the single value {"err": ..} is a failure in the middle of the result
	if len(row) == 1 {
		if m, ok := row[0].(map[string]interface{}); ok {
			return errors.New(m["err"].(string))
		}
	}
	for k, x := range row {
		switch y := x.(type) {
		case json.Number:
			n, err := y.Int64()
			if err != nil {
				return err
			}
			dest[k] = n
		default:
			dest[k] = y
		}
	}
	return nil
}
