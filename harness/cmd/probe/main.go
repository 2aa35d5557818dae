package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

type In struct {
	Id   string
	Code string
	File string
	On   uint64
	Off  uint64
}
type Out struct {
	Id    string
	Ast   interface{} `json:",omitempty"`
	Err   string      `json:",omitempty"`
	Panic string      `json:",omitempty"`
}

func run(in *In) (o *Out) {
	o = &Out{Id: in.Id}
	defer func() {
		if e := recover(); e != nil {
			o.Panic = fmt.Sprint(e)+string(debug.Stack())
		}
	}()
	opts := parser.NewParserOpts()
	opts.Feature = opts.Feature.On(parser.Feature(in.On)).Off(parser.Feature(in.Off))
	s := span.NewSource("", in.Code)
	p := parser.NewParser(s, opts)
	ast, err := p.Prog()
	if err != nil {
		o.Err = err.Error()
		return
	}
	o.Ast = estree.ConvertProg(ast.(*parser.Prog), estree.NewConvertCtx(p))
	b, err := json.Marshal(o.Ast)
	if err != nil {
		o.Panic = "marshal " + err.Error()
	}
	o.Ast = json.RawMessage(b)
	return
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<30)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	enc := json.NewEncoder(w)
	for sc.Scan() {
		in := &In{}
		if err := json.Unmarshal(sc.Bytes(), in); err != nil {
			panic(err)
		}
		if in.File != "" {
			b, _ := os.ReadFile(in.File)
			in.Code = string(b)
		}
		ch := make(chan *Out, 1)
		go func() { ch <- run(in) }()
		select {
		case o := <-ch:
			enc.Encode(o)
		case <-time.After(5 * time.Second):
			enc.Encode(&Out{Id: in.Id, Panic: "TIMEOUT"})
		}
	}
}
