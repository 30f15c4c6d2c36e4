package main

import (
	"bufio"
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
	"runtime/debug"
)

func run(src string) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("PANIC %v", e)
			if os.Getenv("TB") != "" {
				out += string(debug.Stack())
			}
		}
	}()
	cap := os.Getenv("CAP") != ""
	s := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: cap, CaptureErrorStack: cap})
	hd.InitCommands(s)
	p := core.NewParser(&core.ParserOptions{CapturePositions: cap})
	toks := core.Tokenizer{}.Tokenize(src)
	r := p.ParseTokens(toks, nil)
	if !r.Success {
		return "PARSE ERROR " + r.Message
	}
	pr := s.PrepareProcess(s.Compile(*r.Script))
	res := pr.Run()
	_, d := core.ValueToString(res.Value)
	str := d
	return fmt.Sprintf("code=%v value=%#v %v %v", res.Code, res.Value, str, core.Display(res.Value, func(v any) string { return fmt.Sprintf("{#{%T}#}", v) }))
}
func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		fmt.Printf("%s\n   => %s\n", sc.Text(), run(sc.Text()))
	}
}
