// cliref gives the output the command-line tool owes for a text, straight
// from the library: JSON requests in, JSON answers out, one per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	clickhouse "github.com/AfterShip/clickhouse-sql-parser/parser"
)

type req struct {
	Text []byte `json:"text"`
	Mode string `json:"mode"` // json, format, beautify
}

type ans struct {
	Fail string `json:"fail,omitempty"`
	Out  []byte `json:"out,omitempty"`
}

func answer(q req) (a ans) {
	defer func() {
		if r := recover(); r != nil {
			a = ans{Fail: fmt.Sprintf("panic: %v", r)}
		}
	}()
	stmts, err := clickhouse.NewParser(string(q.Text)).ParseStmts()
	if err != nil {
		return ans{Fail: err.Error() + " "}
	}
	var b strings.Builder
	if q.Mode == "json" {
		out, err := json.MarshalIndent(stmts, "", "  ")
		if err != nil {
			return ans{Fail: err.Error()}
		}
		b.Write(out)
		b.WriteByte('\n')
	}
	for _, s := range stmts {
		switch q.Mode {
		case "format":
			b.WriteString(clickhouse.Format(s))
			b.WriteByte('\n')
		case "beautify":
			f := clickhouse.NewFormatter().WithBeautify()
			f.WriteExpr(s)
			b.WriteString(f.String())
			b.WriteByte('\n')
		}
	}
	return ans{Out: []byte(b.String())}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec, enc := json.NewDecoder(in), json.NewEncoder(out)
	for {
		var q req
		if err := dec.Decode(&q); err != nil {
			break
		}
		if err := enc.Encode(answer(q)); err != nil {
			os.Exit(1)
		}
		out.Flush()
	}
}
