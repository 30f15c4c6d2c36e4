From e8d35208097adcecb12de648cc7b12d4cc583809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 01/36] fix: do not read past the end of the token stream when
 closing tagged strings and block comments

---
 src/core/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 7a52698..d75740a 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -974,6 +974,9 @@ func (parser *Parser) closeTaggedString(literal string) bool {
 	if literal != node.tag {
 		return false
 	}
+	if parser.stream.End() {
+		return false
+	}
 	next := parser.stream.Current()
 	if next.Type != TokenType_STRING_DELIMITER {
 		return false
@@ -1071,6 +1074,9 @@ func (parser *Parser) openBlockComment(token Token, delimiter string, nested boo
 // Attempt to close the block comment parsing context, report whether the context was closed
 func (parser *Parser) closeBlockComment() bool {
 	node := parser.context.node.(*blockCommentNode)
+	if parser.stream.End() {
+		return false
+	}
 	token := parser.stream.Current()
 	if token.Type != TokenType_COMMENT {
 		return false
-- 
2.43.0


From 7361e58399fd68fe376095f49255291c816b959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 02/36] fix: report unterminated contexts enclosing a line
 comment at the end of the stream

---
 src/core/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index d75740a..825988e 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -515,7 +515,9 @@ func (parser *Parser) CloseStream() ParseResult {
 		case *taggedStringNode:
 			return PARSE_ERROR("unmatched tagged string delimiter")
 		case *lineCommentNode:
+			// Check enclosing contexts
 			parser.closeLineComment()
+			return parser.CloseStream()
 		case *blockCommentNode:
 			return PARSE_ERROR("unmatched block comment delimiter")
 		default:
-- 
2.43.0


From a15bddadabc950f481f512ba9ee8bdcb75ef4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 03/36] fix: convert stale substitutions to literals at the end
 of tuples, blocks and expressions

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 825988e..4197c54 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -632,6 +632,7 @@ func (parser *Parser) openTuple(token Token) {
 
 // Close the tuple parsing context
 func (parser *Parser) closeTuple() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -664,6 +665,7 @@ func (parser *Parser) openBlock(token Token) {
 
 // Close the block parsing context
 func (parser *Parser) closeBlock() {
+	parser.endSubstitution()
 	node := (parser.context.node).(*blockNode)
 	range_ := parser.stream.Range(node.start, parser.stream.CurrentIndex()-1)
 	value := ""
@@ -701,6 +703,7 @@ func (parser *Parser) openExpression(token Token) {
 
 // Close the expression parsing context
 func (parser *Parser) closeExpression() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
-- 
2.43.0


From bfb7421bc6e93bce47183c6f6e3c1ceaee167dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 04/36] fix: keep multi-byte characters intact after a
 backslash

---
 src/core/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tokenizer.go b/src/core/tokenizer.go
index 4e0c325..73b3817 100644
--- a/src/core/tokenizer.go
+++ b/src/core/tokenizer.go
@@ -165,7 +165,7 @@ func (tokenizer *Tokenizer) Next() *Token {
 					emittedToken = tokenizer.addToken(TokenType_CONTINUATION, position, &literal)
 					break
 				}
-				escape := string(e) // Default value for unrecognized sequences
+				escape := string([]byte{e}) // Default value for unrecognized sequences
 				if isEscape(e) {
 					escape = string(getEscape(e))
 				} else if isOctal(e) {
-- 
2.43.0


From 041b4ea522d637367c42bacda476cbeaf20e5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 05/36] fix: report invalid words as errors instead of
 panicking

---
 src/core/evaluator.go       | 27 ++++++++++++++++-----------
 src/helena_dialect/core.go  | 23 ++++++++++++++++++++++-
 src/helena_dialect/lists.go | 22 +++++++++++++++++-----
 3 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/src/core/evaluator.go b/src/core/evaluator.go
index eafcab4..5f41cd4 100644
--- a/src/core/evaluator.go
+++ b/src/core/evaluator.go
@@ -52,7 +52,8 @@ func NewCompilingEvaluator(
 // Evaluate a script and return result
 //
 // This will compile then execute the script
-func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
+func (evaluator *CompilingEvaluator) EvaluateScript(script Script) (result Result) {
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileScript(script)
 	return evaluator.executor.Execute(program, nil)
 }
@@ -60,7 +61,8 @@ func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
 // Evaluate a sentence and return result
 //
 // This will execute a single-sentence script
-func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result {
+func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) (result Result) {
+	defer recoverSyntaxError(&result)
 	script := Script{}
 	script.Sentences = append(script.Sentences, sentence)
 	program := evaluator.compiler.CompileScript(script)
@@ -71,15 +73,18 @@ func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result
 //
 // This will execute a single-word program
 func (evaluator *CompilingEvaluator) EvaluateWord(word Word) (result Result) {
-	defer func() {
-		if err := recover(); err != nil {
-			if e, ok := err.(SyntaxError); ok {
-				result = ERROR(e.message)
-			} else {
-				panic(err)
-			}
-		}
-	}()
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileWord(word)
 	return evaluator.executor.Execute(program, nil)
 }
+
+// Turn syntax errors thrown by the compiler into error results
+func recoverSyntaxError(result *Result) {
+	if err := recover(); err != nil {
+		if e, ok := err.(SyntaxError); ok {
+			*result = ERROR(e.message)
+		} else {
+			panic(err)
+		}
+	}
+}
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index b0361eb..5f2914f 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -303,9 +303,30 @@ func (scope *Scope) NewLocalScope(slots map[string]uint, values []core.Value) *S
 	return child
 }
 
-func (scope *Scope) Compile(script core.Script) *core.Program {
+// Compile the given script
+//
+// Scripts with syntax errors compile to a program reporting that error
+func (scope *Scope) Compile(script core.Script) (program *core.Program) {
+	defer func() {
+		if err := recover(); err != nil {
+			if e, ok := err.(core.SyntaxError); ok {
+				program = scope.CompileArgs(
+					[]core.Value{core.NewCommandValue(syntaxErrorCommand{e.Error()})},
+				)
+			} else {
+				panic(err)
+			}
+		}
+	}()
 	return scope.compiler.CompileScript(script)
 }
+
+type syntaxErrorCommand struct{ message string }
+
+func (cmd syntaxErrorCommand) Execute(_ []core.Value, _ any) core.Result {
+	return core.ERROR(cmd.message)
+}
+
 func (scope *Scope) Execute(program *core.Program, state *core.ProgramState) core.Result {
 	return scope.executor.Execute(program, state)
 }
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..b472e9e 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -433,11 +433,7 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 		if script.Cache.Values != nil {
 			return core.OK(core.NIL), script.Cache.Values
 		}
-		program := core.NewCompiler(nil).CompileSentences(
-			value.(core.ScriptValue).Script.Sentences,
-		)
-		listExecutor := core.Executor{}
-		result := listExecutor.Execute(program, nil)
+		result := evaluateListSentences(script.Script.Sentences)
 		if result.Code != core.ResultCode_OK {
 			return core.ERROR("invalid list"), nil
 		}
@@ -447,6 +443,22 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 	return core.ValueToValues(value)
 }
 
+// Evaluate the words of the given sentences as list elements
+func evaluateListSentences(sentences []core.Sentence) (result core.Result) {
+	defer func() {
+		if err := recover(); err != nil {
+			if e, ok := err.(core.SyntaxError); ok {
+				result = core.ERROR(e.Error())
+			} else {
+				panic(err)
+			}
+		}
+	}()
+	program := core.NewCompiler(nil).CompileSentences(sentences)
+	listExecutor := core.Executor{}
+	return listExecutor.Execute(program, nil)
+}
+
 func DisplayListValue(
 	list core.ListValue,
 	fn core.DisplayFunction,
-- 
2.43.0


From daebba10600372d9ee044fb245ea17607b2f6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 06/36] fix: compare collections by string value without
 panicking

---
 src/core/values.go                 | 10 ++++++++++
 src/helena_dialect/numbers.go      |  2 +-
 src/helena_dialect/strings.go      |  2 +-
 src/picol_dialect/picol_dialect.go |  8 ++++++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/core/values.go b/src/core/values.go
index 22f9fa2..dc6436b 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -6,6 +6,7 @@ package core
 
 import (
 	"fmt"
+	"reflect"
 	"strconv"
 )
 
@@ -64,6 +65,15 @@ type Value interface {
 	Type() ValueType
 }
 
+// Tell whether both values are identical
+//
+// Values that Go cannot compare, e.g. collections, are never identical
+func IdenticalValues(value1 Value, value2 Value) bool {
+	return reflect.ValueOf(value1).Comparable() &&
+		reflect.ValueOf(value2).Comparable() &&
+		value1 == value2
+}
+
 type IndexSelectable interface {
 	// Select value at index
 	SelectIndex(index Value) Result
diff --git a/src/helena_dialect/numbers.go b/src/helena_dialect/numbers.go
index 7b2b8ae..8a20916 100644
--- a/src/helena_dialect/numbers.go
+++ b/src/helena_dialect/numbers.go
@@ -133,7 +133,7 @@ func binaryOp(
 		if len(args) != 3 {
 			return OPERATOR_ARITY_ERROR(operator)
 		}
-		if args[0] == args[2] {
+		if core.IdenticalValues(args[0], args[2]) {
 			return core.OK(core.BOOL(whenEqual))
 		}
 		result, operand2 := core.ValueToFloat(args[2])
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..0c75028 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -260,7 +260,7 @@ func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
+	if core.IdenticalValues(args[1], args[2]) {
 		return core.OK(core.BOOL(cmd.whenEqual))
 	}
 	result1, operand1 := core.ValueToString(args[1])
diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..12f56e7 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -186,11 +186,15 @@ func compareValuesCmd(
 
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool {
+		return core.IdenticalValues(op1, op2) || asString(op1) == asString(op2)
+	},
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool {
+		return !core.IdenticalValues(op1, op2) && asString(op1) != asString(op2)
+	},
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From dc35306bee5d9cd42ae71c4658c43db950f30df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 07/36] fix: avoid integer overflow in list and string ranges

---
 src/helena_dialect/lists.go   | 6 +++---
 src/helena_dialect/strings.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index b472e9e..fcb45c6 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last+1, length)]))
+		return core.OK(core.LIST(values[first:min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -164,7 +164,7 @@ func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length)+1), length):]
 	newValues := make([]core.Value, 0, len(head)+len(tail))
 	newValues = append(append(newValues, head...), tail...)
 	return core.OK(core.LIST(newValues))
@@ -234,7 +234,7 @@ func (listReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length)+1), length):]
 	result2, insert := ValueToArray(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 0c75028..75daeb4 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last+1, length)]))
+		return core.OK(core.STR(str[first:min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -161,7 +161,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length)+1), length):]
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -227,7 +227,7 @@ func (stringReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length)+1), length):]
 	result2, insert := core.ValueToString(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
-- 
2.43.0


From b83b457b25b40acb94774b1c28c4d32fef581937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 08/36] fix: check the arity of string and list removal and of
 foreach help

---
 src/helena_dialect/dicts.go   | 2 +-
 src/helena_dialect/lists.go   | 4 ++--
 src/helena_dialect/strings.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 38e6be4..5c673dd 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -375,7 +375,7 @@ func (dictForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (dictForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(DICT_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(DICT_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index fcb45c6..e75be41 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -146,7 +146,7 @@ const LIST_REMOVE_SIGNATURE = "list value remove first last"
 type listRemoveCmd struct{}
 
 func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(LIST_REMOVE_SIGNATURE)
 	}
 	result, values := ValueToArray(args[1])
@@ -409,7 +409,7 @@ func (listForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (listForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(LIST_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(LIST_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 75daeb4..a3ce9e3 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -143,7 +143,7 @@ const STRING_REMOVE_SIGNATURE = "string value remove first last"
 type stringRemoveCmd struct{}
 
 func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	result, str := core.ValueToString(args[1])
@@ -165,7 +165,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 5 {
+	if len(args) > 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	return core.OK(core.STR(STRING_REMOVE_SIGNATURE))
-- 
2.43.0


From 4177504880b1071fce4549eddd4b183106e97659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 09/36] fix: do not reencode bytes when indexing strings

---
 src/core/values.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/values.go b/src/core/values.go
index dc6436b..84e2be6 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -404,7 +404,7 @@ func StringAtOrDefault(value string, index Value, def Value) Result {
 			return ERROR(`index out of range "` + fmt.Sprint(i) + `"`)
 		}
 	}
-	return OK(StringValue{string(value[i])})
+	return OK(StringValue{value[i : i+1]})
 }
 
 func (value StringValue) Display(_ DisplayFunction) string {
-- 
2.43.0


From 50eb46f89e26f2e141ea8726df0a8b38cf7abedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 10/36] fix: format string and list ranges

---
 src/helena_dialect/lists.go   | 2 +-
 src/helena_dialect/strings.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index e75be41..29a910c 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last, length-1)+1]))
+		return core.OK(core.LIST(values[first : min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a3ce9e3..12ae60c 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last, length-1)+1]))
+		return core.OK(core.STR(str[first : min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-- 
2.43.0


From ff84abb5010e798373cf22fe202d861cb989df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 11/36] fix: check for missing option values and copy remainder
 arguments

---
 src/helena_dialect/argspecs.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 5cd7a8b..43d2fe1 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -192,9 +192,10 @@ func (argspec ArgspecValue) setSlotValues(
 					// No remainder
 					value = core.TUPLE([]core.Value{})
 				} else {
-					value = core.TUPLE(
-						args[slots[slot] : slots[slot]+int(remainders)],
-					)
+					value = core.TUPLE(append(
+						[]core.Value{},
+						args[slots[slot]:slots[slot]+int(remainders)]...,
+					))
 				}
 			}
 		}
@@ -318,6 +319,11 @@ func (argspec ArgspecValue) findSlots(
 				slots[optionSlot] = i
 				i++
 			case OptionType_OPTION:
+				if i+1 >= len(args) {
+					return core.ERROR(
+						`missing value for option "` + OptionName(arg.Option.Names) + `"`,
+					), findSlotsResult{}
+				}
 				switch arg.Type {
 				case ArgumentType_REQUIRED:
 					nbRequired -= 2
-- 
2.43.0


From 75b33c32b8ca881a460aac115bacf805f4d7e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 12/36] fix: reject invalid argument names, duplicates and
 remainders in argspecs

---
 src/helena_dialect/arguments.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 44d6ea5..983c8f1 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -93,19 +93,22 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 					`argument for flag "` + OptionName(lastOption.Names) + `" must be optional`,
 				), nil
 			}
+			if arg.Type == ArgumentType_REMAINDER {
+				return core.ERROR(
+					`argument for option "` + OptionName(lastOption.Names) + `" cannot be a remainder`,
+				), nil
+			}
 			arg.Option = lastOption
-			args = append(args, arg)
 			lastOption = nil
-			continue
-		}
-
-		if arg.Type == ArgumentType_REMAINDER && hasRemainder {
+		} else if arg.Type == ArgumentType_REMAINDER && hasRemainder {
 			return core.ERROR("only one remainder argument is allowed"), nil
 		}
 		if _, ok := argnames[arg.Name]; ok {
 			return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
 		}
-		hasRemainder = arg.Type == ArgumentType_REMAINDER
+		if arg.Type == ArgumentType_REMAINDER {
+			hasRemainder = true
+		}
 		argnames[arg.Name] = struct{}{}
 		args = append(args, arg)
 	}
@@ -224,12 +227,19 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 						(nameOrDefault == "" || nameOrDefault == "?") {
 						return core.ERROR("empty argument name"), Argument{}
 					}
-					if result1.Code == core.ResultCode_OK && nameOrGuard[0] == '?' {
+					if result1.Code == core.ResultCode_OK && strings.HasPrefix(nameOrGuard, "?") {
+						if nameOrGuard == "?" {
+							return core.ERROR("empty argument name"), Argument{}
+						}
 						return core.OK(core.NIL), Argument{
 							Name:    nameOrGuard[1:],
 							Type:    ArgumentType_OPTIONAL,
 							Default: specs[1],
 						}
+					} else if result2.Code != core.ResultCode_OK {
+						return core.ERROR("invalid argument name"), Argument{}
+					} else if nameOrDefault == "" || nameOrDefault == "?" {
+						return core.ERROR("empty argument name"), Argument{}
 					} else if nameOrDefault[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:  nameOrDefault[1:],
@@ -299,6 +309,9 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 
 func BuildUsage(args []Argument, skip uint) string {
 	result := ""
+	if skip > uint(len(args)) {
+		return result
+	}
 	for i, arg := range args[skip:] {
 		if i != 0 {
 			result += " "
-- 
2.43.0


From 64e4395d3c83b88f67856e22ddc097c44b1c3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 13/36] fix: do not look up the position of errors raised
 before the first opcode

---
 src/helena_dialect/core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 5f2914f..2489561 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -163,7 +163,7 @@ func (process *Process) Run() core.Result {
 				errorStack := result.Data.(*core.ErrorStack)
 				var level core.ErrorStackLevel
 				var frame = append([]core.Value{}, context.state.LastFrame...)
-				if context.program.OpCodePositions != nil {
+				if context.program.OpCodePositions != nil && context.state.PC > 0 {
 					level = core.ErrorStackLevel{
 						Frame:    &frame,
 						Source:   context.program.Source,
-- 
2.43.0


From c3019f29d018455ccd15ebca8d28d6cc92daf6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 14/36] fix: end coroutines on errors and reject reentrant
 calls

---
 src/helena_dialect/coroutines.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 8f6aa2e..06209fb 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -7,6 +7,7 @@ type coroutineState uint8
 const (
 	coroutineState_inactive coroutineState = iota
 	coroutineState_active
+	coroutineState_running
 	coroutineState_done
 )
 
@@ -54,6 +55,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> wait")
 		}
+		if cmd.state == coroutineState_running {
+			return core.ERROR("coroutine is running")
+		}
 		if cmd.state == coroutineState_inactive {
 			cmd.state = coroutineState_active
 			program := cmd.scope.CompileScriptValue(cmd.body)
@@ -65,7 +69,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> active")
 		}
-		return core.OK(core.BOOL(cmd.state == coroutineState_active))
+		return core.OK(core.BOOL(
+			cmd.state == coroutineState_active || cmd.state == coroutineState_running,
+		))
 
 	case "done":
 		if len(args) != 2 {
@@ -83,6 +89,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if cmd.state == coroutineState_done {
 			return core.ERROR("coroutine is done")
 		}
+		if cmd.state == coroutineState_running {
+			return core.ERROR("coroutine is running")
+		}
 		if len(args) == 3 {
 			cmd.process.YieldBack(args[2])
 		}
@@ -94,13 +103,16 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 }
 
 func (cmd *coroutineCommand) run() core.Result {
+	cmd.state = coroutineState_running
 	result := cmd.process.Run()
+	if result.Code == core.ResultCode_YIELD {
+		cmd.state = coroutineState_active
+		return core.OK(result.Value)
+	}
+	cmd.state = coroutineState_done
 	switch result.Code {
 	case core.ResultCode_OK,
 		core.ResultCode_RETURN:
-		cmd.state = coroutineState_done
-		return core.OK(result.Value)
-	case core.ResultCode_YIELD:
 		return core.OK(result.Value)
 	case core.ResultCode_ERROR:
 		return result
-- 
2.43.0


From b7cef063fe5361a982a442244807d3bc5bbff4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 15/36] fix: run catch bodies and argument defaults in their
 own process

---
 src/helena_dialect/argspecs.go | 6 ++++--
 src/helena_dialect/controls.go | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 43d2fe1..a59adad 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -170,7 +170,8 @@ func (argspec ArgspecValue) setSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					process := scope.PrepareProcess(program)
+					result := process.Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
@@ -382,7 +383,8 @@ func (argspec ArgspecValue) setPositionalSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					process := scope.PrepareProcess(program)
+					result := process.Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..b4c28e5 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -606,7 +606,8 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		process := scope.PrepareProcess(program)
+		result := process.Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From 9747786c6345b06ff17dc18269b7f7758d52e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 16/36] fix: check that catch bodies and handlers are scripts

---
 src/helena_dialect/controls.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index b4c28e5..6807c47 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -641,8 +641,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				if body.Type() != core.ValueType_SCRIPT {
+					return core.ERROR("body must be a script")
+				}
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -670,20 +672,26 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					{
 						_, varname := core.ValueToString(state.args[i+1])
 						handler := state.args[i+2]
+						if handler.Type() != core.ValueType_SCRIPT {
+							return core.ERROR("handler must be a script")
+						}
 						subscope := scope.NewLocalScope(
 							map[string]uint{varname: 0},
 							[]core.Value{state.bodyResult.Value},
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						if handler.Type() != core.ValueType_SCRIPT {
+							return core.ERROR("handler must be a script")
+						}
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -718,7 +726,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				if handler.Type() != core.ValueType_SCRIPT {
+					return core.ERROR("handler must be a script")
+				}
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
-- 
2.43.0


From 612e7400e38beced85040ebeebef2eb04f16549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 17/36] fix: resume catch after unhandled yields

---
 src/helena_dialect/controls.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 6807c47..9fc55de 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -623,7 +623,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Body yielded without handler, so there is nothing left to resume
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
-- 
2.43.0


From bf98fa68cb505051dce4d423e9d48b8b421adb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 18/36] fix: clear the yield code when resuming with a regular
 command

---
 src/core/compiler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index a9a5a89..d7cad39 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -781,6 +781,8 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			if result.Code != ResultCode_OK {
 				return result
 			}
+		} else {
+			state.SetResult(OK(state.Result.Value))
 		}
 	}
 	for state.PC < stop {
-- 
2.43.0


From bfba135c63200e2cc1081a226e7e5403d050e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 19/36] fix: keep a copy of the arguments of scope calls

---
 src/helena_dialect/scopes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/scopes.go b/src/helena_dialect/scopes.go
index 41a74ed..f0bf7d5 100644
--- a/src/helena_dialect/scopes.go
+++ b/src/helena_dialect/scopes.go
@@ -71,7 +71,9 @@ func (scope *scopeCommand) Execute(args []core.Value, _ any) core.Result {
 		if scope.scope.ResolveLocalCommand(command) == nil {
 			return core.ERROR(`unknown command "` + command + `"`)
 		}
-		program := scope.scope.CompileArgs(args[2:])
+		program := scope.scope.CompileArgs(
+			append([]core.Value{}, args[2:]...),
+		)
 		return CreateContinuationValue(scope.scope, program)
 
 	default:
-- 
2.43.0


From ab59c813b3d9e700f9b2a940506eefd07e0a1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 20/36] fix: do not read command states after returning them to
 their pool

---
 src/helena_dialect/controls.go | 25 ++++++++++++++++---------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 9fc55de..f05ac32 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -356,11 +361,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -550,18 +556,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
-	whenCmdStatePool.Put(state)
+	scope := state.scope
 	var body core.Value
 	if state.i == len(state.cases)-1 {
 		body = state.cases[state.i]
 	} else {
 		body = state.cases[state.i+1]
 	}
+	whenCmdStatePool.Put(state)
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..4551d56 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -251,11 +251,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -300,11 +301,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From b5e536818972bacd7804ae7ef2535bad861ef7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 21/36] fix: set argspec variables atomically

---
 src/helena_dialect/core.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 2489561..a418dd9 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -518,11 +518,17 @@ func (scope *Scope) SetNamedVariables(slots map[string]uint, values []core.Value
 		if values[slot] == nil {
 			continue
 		}
-		result := scope.SetNamedVariable(name, values[slot])
+		result := scope.checkNamedVariable(name)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
 	}
+	for name, slot := range slots {
+		if values[slot] == nil {
+			continue
+		}
+		scope.Context.Variables[name] = values[slot]
+	}
 	return core.OK(core.NIL)
 }
 func (scope *Scope) DestructureVariable(variable core.Value, value core.Value, check bool) core.Result {
-- 
2.43.0


From 5e97c723ea886d4d59dc95bec5f2c5798239ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 22/36] fix: check that picol bodies are scripts

---
 src/picol_dialect/picol_dialect.go | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 12f56e7..fbfb21e 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -66,6 +66,8 @@ func ARITY_ERROR(signature string) core.Result {
 	return core.ERROR(`wrong # args: should be "` + signature + `"`)
 }
 
+var INVALID_BODY_ERROR = core.ERROR("body must be a script")
+
 type simpleCommand struct {
 	fn func(args []core.Value, context any) core.Result
 }
@@ -304,13 +306,17 @@ var ifCmd = makeCommand(
 		if testResult.Code != core.ResultCode_OK {
 			return testResult
 		}
-		var script core.ScriptValue
+		var body core.Value
 		if testResult.Value.(core.BooleanValue).Value {
-			script = args[2].(core.ScriptValue)
+			body = args[2]
 		} else if len(args) == 3 {
 			return EMPTY
 		} else {
-			script = args[4].(core.ScriptValue)
+			body = args[4]
+		}
+		script, ok := body.(core.ScriptValue)
+		if !ok {
+			return INVALID_BODY_ERROR
 		}
 		result := scope.Evaluator.EvaluateScript(script.Script)
 		if result.Code != core.ResultCode_OK {
@@ -329,10 +335,13 @@ var forCmd = makeCommand(
 		if len(args) != 5 {
 			return ARITY_ERROR("for start test next command")
 		}
-		start := args[1].(core.ScriptValue)
+		start, ok1 := args[1].(core.ScriptValue)
 		test := args[2]
-		next := args[3].(core.ScriptValue)
-		script := args[4].(core.ScriptValue)
+		next, ok2 := args[3].(core.ScriptValue)
+		script, ok3 := args[4].(core.ScriptValue)
+		if !ok1 || !ok2 || !ok3 {
+			return INVALID_BODY_ERROR
+		}
 		var result core.Result
 		result = scope.Evaluator.EvaluateScript(start.Script)
 		if result.Code != core.ResultCode_OK {
@@ -375,7 +384,10 @@ var whileCmd = makeCommand(
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-		script := args[2].(core.ScriptValue)
+		script, ok := args[2].(core.ScriptValue)
+		if !ok {
+			return INVALID_BODY_ERROR
+		}
 		var result core.Result
 		for {
 			result = evaluateCondition(test, scope)
@@ -628,7 +640,11 @@ var procCmd = makeCommand(
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
-		scope.Commands[asString(name)] = procCommand{argspecs, body.(core.ScriptValue)}
+		script, ok := body.(core.ScriptValue)
+		if !ok {
+			return INVALID_BODY_ERROR
+		}
+		scope.Commands[asString(name)] = procCommand{argspecs, script}
 		return EMPTY
 	},
 )
-- 
2.43.0


From 68805e2297ba156d5bfa08ba2f724c155d67c5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 23/36] fix: check the arity of the picol while command

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index fbfb21e..ed6202d 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -380,7 +380,7 @@ var forCmd = makeCommand(
 var whileCmd = makeCommand(
 	func(args []core.Value, context any) core.Result {
 		scope := context.(*PicolScope)
-		if len(args) != 3 && len(args) != 5 {
+		if len(args) != 3 {
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-- 
2.43.0


From 45fe5e12999a34137340c1c006a8f793349c3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 24/36] fix: accept picol procs with defaults before an empty
 remainder

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index ed6202d..c75c5cc 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -515,7 +515,7 @@ func (proc procCommand) Execute(args []core.Value, context any) core.Result {
 		argspec := proc.argspecs[p]
 		var value core.Value
 		if p == len(proc.argspecs)-1 && argspec.name == "args" {
-			value = core.TUPLE(append([]core.Value{}, args[a:]...))
+			value = core.TUPLE(append([]core.Value{}, args[min(a, len(args)):]...))
 			a = len(args) - 1
 		} else if p < len(args)-1 {
 			value = args[a]
-- 
2.43.0


From 5dfc8d9c6ebd7980b75f55d799b10ebc681ac0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 25/36] fix: quote displayed strings ending with a backslash

---
 src/core/display.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/display.go b/src/core/display.go
index 9b62e00..7a7ddca 100644
--- a/src/core/display.go
+++ b/src/core/display.go
@@ -6,6 +6,7 @@ package core
 
 import (
 	"regexp"
+	"strings"
 )
 
 // Value display function
@@ -57,6 +58,13 @@ func Display(
 	}
 }
 
+// Report whether tokens form a single literal that evaluates to itself wherever
+// it is inserted (a trailing backslash would escape the next character)
+func isPlainLiteral(tokens []Token) bool {
+	return len(tokens) == 1 && tokens[0].Type == TokenType_TEXT &&
+		!strings.HasSuffix(tokens[0].Literal, `\`)
+}
+
 // Return the display string of str as a single literal or as a quoted string if
 // the string contains special characters
 func DisplayLiteralOrString(str string) string {
@@ -65,7 +73,7 @@ func DisplayLiteralOrString(str string) string {
 	if len(tokens) == 0 {
 		return `""`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if isPlainLiteral(tokens) {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"({[]`)
@@ -82,7 +90,7 @@ func DisplayLiteralOrBlock(str string) string {
 	if len(tokens) == 0 {
 		return `{}`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if isPlainLiteral(tokens) {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"#(){}[\]]`)
-- 
2.43.0


From 2b7d7cde9b8379a17f3c9b58d16c5a964cfa0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 26/36] fix: display blocks with their escape sequences

---
 src/core/compiler.go |  2 +-
 src/core/parser.go   |  7 ++++++-
 src/core/syntax.go   |  3 +++
 src/core/values.go   | 19 +++++++++++++++++--
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index d7cad39..7e57190 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -552,7 +552,7 @@ func (compiler Compiler) emitTuple(program *Program, tuple TupleMorpheme) {
 	program.PushOpCode(OpCode_MAKE_TUPLE, tuple.position)
 }
 func (compiler Compiler) emitBlock(program *Program, block BlockMorpheme) {
-	value := NewScriptValue(block.Subscript, block.Value)
+	value := newBlockValue(block)
 	compiler.emitConstant(program, value, block.position)
 }
 func (compiler Compiler) emitBlockString(program *Program, block BlockMorpheme) {
diff --git a/src/core/parser.go b/src/core/parser.go
index 4197c54..7c3af63 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -172,8 +172,9 @@ type blockNode struct {
 	firstToken Token
 	subscript  *scriptNode
 	value      string
+	sequence   string
 
-	// Starting position of block, used to get literal value
+	// Starting position of block, used to get literal value and sequence
 	start uint
 }
 
@@ -192,6 +193,7 @@ func (node *blockNode) toMorpheme(capturePosition bool, source *Source) Morpheme
 	return BlockMorpheme{
 		Subscript: *node.subscript.toScript(capturePosition, source),
 		Value:     node.value,
+		Sequence:  node.sequence,
 		position:  position,
 	}
 }
@@ -669,10 +671,13 @@ func (parser *Parser) closeBlock() {
 	node := (parser.context.node).(*blockNode)
 	range_ := parser.stream.Range(node.start, parser.stream.CurrentIndex()-1)
 	value := ""
+	sequence := ""
 	for _, token := range range_ {
 		value += token.Literal
+		sequence += token.Sequence
 	}
 	node.value = value
+	node.sequence = sequence
 	parser.popContext()
 }
 
diff --git a/src/core/syntax.go b/src/core/syntax.go
index e112dee..a2f98a2 100644
--- a/src/core/syntax.go
+++ b/src/core/syntax.go
@@ -146,6 +146,9 @@ type BlockMorpheme struct {
 	// Block string value
 	Value string
 
+	// Block source sequence, i.e. string value before escape substitution
+	Sequence string
+
 	// Position in source
 	position *SourcePosition
 }
diff --git a/src/core/values.go b/src/core/values.go
index 84e2be6..67cd3a4 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -606,6 +606,9 @@ type ScriptValue struct {
 	// Script source string
 	Source *string
 
+	// Source sequence when different from source string (blocks with escapes)
+	sequence *string
+
 	// Run-time cache
 	Cache *ScriptValueCache
 }
@@ -625,12 +628,21 @@ func (value ScriptValue) Type() ValueType {
 
 // Constructor with script and source to encapsulate
 func NewScriptValue(script Script, source string) ScriptValue {
-	return ScriptValue{script, &source, &ScriptValueCache{}}
+	return ScriptValue{Script: script, Source: &source, Cache: &ScriptValueCache{}}
 }
 
 // Constructor with script to encapsulate
 func NewScriptValueWithNoSource(script Script) ScriptValue {
-	return ScriptValue{script, nil, &ScriptValueCache{}}
+	return ScriptValue{Script: script, Cache: &ScriptValueCache{}}
+}
+
+// Constructor with block to encapsulate
+func newBlockValue(block BlockMorpheme) ScriptValue {
+	value := NewScriptValue(block.Subscript, block.Value)
+	if block.Sequence != block.Value && block.Sequence != "" {
+		value.sequence = &block.Sequence
+	}
+	return value
 }
 
 func (value ScriptValue) Display(fn DisplayFunction) string {
@@ -640,6 +652,9 @@ func (value ScriptValue) Display(fn DisplayFunction) string {
 	if value.Source == nil {
 		return fn(value)
 	}
+	if value.sequence != nil {
+		return "{" + *value.sequence + "}"
+	}
 	return "{" + *value.Source + "}"
 }
 
-- 
2.43.0


From 35d8d21d1634c2dbcaebdb6d0df8ffad9419410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 27/36] fix: copy the rules of resolved selectors

---
 src/core/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index 7e57190..a5824f7 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -857,7 +857,7 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			{
 				rules := state.LastFrame
 				value := state.Pop()
-				result, selector := executor.resolveSelector(rules)
+				result, selector := executor.resolveSelector(append([]Value{}, rules...))
 				if result.Code != ResultCode_OK {
 					return result
 				}
-- 
2.43.0


From 1794249ff3db230011233024bf3bbda8ec16b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 28/36] fix: completed programs leave no error stack level

---
 src/helena_dialect/core.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index a418dd9..d4a0792 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -145,14 +145,15 @@ func (process *Process) Run() core.Result {
 			// Yield result to caller
 			break
 		}
+		completed := result.Code == core.ResultCode_OK
 		if context.callback != nil {
 			// Process result with callback
 			result = context.callback(result, context.data)
 		}
 
 		if result.Code == core.ResultCode_ERROR {
-			if process.options.CaptureErrorStack {
-				// Push to error stack
+			if process.options.CaptureErrorStack && !completed {
+				// Push to error stack (completed programs have no failed sentence)
 				if result.Data == nil {
 					result = core.Result{
 						Code:  result.Code,
@@ -175,7 +176,7 @@ func (process *Process) Run() core.Result {
 					}
 				}
 				errorStack.Push(level)
-			} else if result.Data != nil {
+			} else if !process.options.CaptureErrorStack && result.Data != nil {
 				// Erase error stack from result
 				result = core.Result{
 					Code:  result.Code,
-- 
2.43.0


From cc9bef9ac4b3777c50df1b47b3a7859d0b945fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 29/36] fix: resume the right catch after unhandled nested
 yields

---
 src/helena_dialect/controls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index f05ac32..197ee87 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -673,6 +673,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 				i := cmd.findHandlerIndex(state.bodyResult.Code, state.args)
 				if i >= len(state.args)-1 {
 					state.result = state.bodyResult
+					if state.bodyResult.Code == core.ResultCode_YIELD {
+						// Unhandled yields end the body, so drop its own resume state
+						state.result = core.YIELD(state.bodyResult.Value)
+					}
 					state.step = catchStateStep_beforeFinally
 					continue
 				}
-- 
2.43.0


From 87b37a2ba5f59e62ad574a80ea8ddad9d12cb57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 30/36] fix: keep a copy of the arguments of suspended
 conditions and catches

---
 src/helena_dialect/controls.go | 7 +++++--
 src/helena_dialect/logic.go    | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 197ee87..092f3dc 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -358,7 +358,7 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state := ifCmdStatePool.Get().(*ifCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // args may not outlive the call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
 			scope, args, i := state.scope, state.args, state.i
@@ -626,7 +626,10 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.OK(core.TUPLE([]core.Value{core.STR(core.RESULT_CODE_NAME(result))}))
 		}
 	}
-	return cmd.run(&catchState{step: catchStateStep_beforeBody, args: args}, scope)
+	return cmd.run(&catchState{
+		step: catchStateStep_beforeBody,
+		args: append([]core.Value{}, args...), // args may not outlive the call
+	}, scope)
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 4551d56..2493a1e 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -248,7 +248,7 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state := andCmdStatePool.Get().(*andCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // args may not outlive the call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
 			scope, args, i := state.scope, state.args, state.i
@@ -298,7 +298,7 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state := andCmdStatePool.Get().(*andCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // args may not outlive the call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
 			scope, args, i := state.scope, state.args, state.i
-- 
2.43.0


From a8ae2f30afe1ef4c478b6538a0e1912974072d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 31/36] fix: unset nested tuples with duplicate names

The second pass checked nested tuples again, so that a name repeated in
outer levels made it skip the rest of the tuple silently.
---
 src/helena_dialect/variables.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/variables.go b/src/helena_dialect/variables.go
index ab5eedd..bd1c49d 100644
--- a/src/helena_dialect/variables.go
+++ b/src/helena_dialect/variables.go
@@ -160,10 +160,18 @@ func unset(scope *Scope, name core.Value, check bool) core.Result {
 		return core.OK(core.NIL)
 	}
 	// Second pass for actual setting
+	applyUnset(scope, variables)
+	return core.OK(core.NIL)
+}
+func applyUnset(scope *Scope, name core.Value) {
+	if name.Type() != core.ValueType_TUPLE {
+		scope.UnsetVariable(name, false)
+		return
+	}
+	variables := name.(core.TupleValue)
 	for i := 0; i < len(variables.Values); i++ {
-		unset(scope, variables.Values[i], false)
+		applyUnset(scope, variables.Values[i])
 	}
-	return core.OK(core.NIL)
 }
 
 func registerVariableCommands(scope *Scope) {
-- 
2.43.0


From f97de273db10d75ccd2dd9b0c638e566ccd2a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 32/36] fix: ignore comments in argument lists of picol procs

---
 src/picol_dialect/picol_dialect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index c75c5cc..0604cb2 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -552,6 +552,10 @@ func valueToArray(value core.Value) (core.Result, []core.Value) {
 			for _, sentence := range value.(core.ScriptValue).Script.Sentences {
 				for _, word := range sentence.Words {
 					if word.Value == nil {
+						if (core.SyntaxChecker{}).CheckWord(word.Word) == core.WordType_IGNORED {
+							// Block comment
+							continue
+						}
 						result := evaluator.EvaluateWord(word.Word)
 						if result.Code != core.ResultCode_OK {
 							return result, nil
-- 
2.43.0


From 7ac41d77aa3bcfbf9fbb670db0d85687520448d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 33/36] fix: treat else as a keyword only after the body of an
 if

---
 src/helena_dialect/controls.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 092f3dc..4f7ede9 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -349,7 +349,7 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		return core.OK(core.NIL)
 	}
 	_, keyword := core.ValueToString(args[i])
-	if keyword == "else" {
+	if i > 0 && keyword == "else" {
 		return ifCmdBody(scope, args, i)
 	}
 	test := args[i+1]
@@ -385,7 +385,7 @@ func ifCmdNext(value core.Value, scope *Scope, args []core.Value, i int) core.Re
 }
 func ifCmdBody(scope *Scope, args []core.Value, i int) core.Result {
 	var body core.Value
-	if _, s := core.ValueToString(args[i]); s == "else" {
+	if _, s := core.ValueToString(args[i]); i > 0 && s == "else" {
 		body = args[i+1]
 	} else {
 		body = args[i+2]
-- 
2.43.0


From 736de6d3a4a8bf6e37959850b2984036064fe547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 34/36] fix: wait for the next line after a trailing
 continuation in the shell

---
 src/cli/cli.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index db60c81..3f0bdd9 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -198,16 +198,16 @@ func prompt() {
 var lastResult = core.OK(core.NIL)
 
 func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
-	input := core.NewStringStream(cmd)
-	tokens := []core.Token{}
-	output := core.NewArrayTokenStream(tokens, input.Source())
-	(&core.Tokenizer{}).TokenizeStream(input, output)
-	if len(tokens) > 0 &&
-		tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
+	tokens := core.Tokenizer{}.Tokenize(cmd + "\n")
+	if tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
 		// Continuation, wait for next line
 		return nil, recoverableError{"continuation"}
 	}
 
+	input := core.NewStringStream(cmd)
+	output := core.NewArrayTokenStream([]core.Token{}, input.Source())
+	(&core.Tokenizer{}).TokenizeStream(input, output)
+
 	parser := core.NewParser(&core.ParserOptions{CapturePositions: true})
 	parseResult := parser.ParseStream(output)
 	if !parseResult.Success {
-- 
2.43.0


From b76d485ebd9d54141f6971e3de083fc429b63a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 35/36] fix: do not report the last error again on empty shell
 inputs

---
 src/cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index 3f0bdd9..832647c 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -223,7 +223,7 @@ func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
 
 	program := scope.Compile(*parseResult.Script)
 	process := scope.PrepareProcess(program)
-	process.SetResult(lastResult)
+	process.SetResult(core.OK(lastResult.Value))
 	result := process.Run()
 	lastResult = result
 	if result.Code == core.ResultCode_ERROR {
-- 
2.43.0


From 941fc09d036318f9d6c933230521c99ae37957fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 36/36] fix: do not add an attribute to logged errors

---
 src/native/go_slog/go_slog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 263251d..4bda15f 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -36,7 +36,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
 		msg, _ := asString((args[2]))
-		slog.Error(msg, "toto", 1)
+		slog.Error(msg)
 	case "Info":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
-- 
2.43.0

