From 2ba31373ad1fc82c546f10f9204b699ce6c86bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 01/42] fix: keep the bytes of an escaped non-ASCII character

---
 src/core/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tokenizer.go b/src/core/tokenizer.go
index 4e0c325..73b3817 100644
--- a/src/core/tokenizer.go
+++ b/src/core/tokenizer.go
@@ -165,7 +165,7 @@ func (tokenizer *Tokenizer) Next() *Token {
 					emittedToken = tokenizer.addToken(TokenType_CONTINUATION, position, &literal)
 					break
 				}
-				escape := string(e) // Default value for unrecognized sequences
+				escape := string([]byte{e}) // Default value for unrecognized sequences
 				if isEscape(e) {
 					escape = string(getEscape(e))
 				} else if isOctal(e) {
-- 
2.43.0


From 9cb06f121a6c27c5f413ddb38caf9fbf230ce527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 02/42] fix: string element access returns the byte range, not
 a code point

---
 src/core/values.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/values.go b/src/core/values.go
index 22f9fa2..36b6e07 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -394,7 +394,7 @@ func StringAtOrDefault(value string, index Value, def Value) Result {
 			return ERROR(`index out of range "` + fmt.Sprint(i) + `"`)
 		}
 	}
-	return OK(StringValue{string(value[i])})
+	return OK(StringValue{value[i : i+1]})
 }
 
 func (value StringValue) Display(_ DisplayFunction) string {
-- 
2.43.0


From 450cd91ea632c47a1940839eb474979914ae86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 03/42] fix: keep selectors that follow an indexed selector in
 strings

---
 src/core/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index 7a52698..61004d5 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -680,7 +680,9 @@ func (parser *Parser) parseExpression(token Token) ParseResult {
 	switch token.Type {
 	case TokenType_CLOSE_EXPRESSION:
 		parser.closeExpression()
-		parser.continueSubstitution()
+		if parser.expectSource() {
+			parser.continueSubstitution()
+		}
 		return PARSE_OK(nil)
 
 	default:
-- 
2.43.0


From fe7f89ae7605cac3e352171a7a04f98984a2c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 04/42] fix: unterminated tagged string ending with its tag is
 a parse error, not a crash

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 61004d5..4b30bbd 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -976,6 +976,9 @@ func (parser *Parser) closeTaggedString(literal string) bool {
 	if literal != node.tag {
 		return false
 	}
+	if parser.stream.End() {
+		return false
+	}
 	next := parser.stream.Current()
 	if next.Type != TokenType_STRING_DELIMITER {
 		return false
-- 
2.43.0


From 56d1830caa861c070e3dfa2f6d1817764dff1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 05/42] fix: unterminated block comment ending with a brace is
 a parse error, not a crash

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 4b30bbd..f2d2599 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -1076,6 +1076,9 @@ func (parser *Parser) openBlockComment(token Token, delimiter string, nested boo
 // Attempt to close the block comment parsing context, report whether the context was closed
 func (parser *Parser) closeBlockComment() bool {
 	node := parser.context.node.(*blockCommentNode)
+	if parser.stream.End() {
+		return false
+	}
 	token := parser.stream.Current()
 	if token.Type != TokenType_COMMENT {
 		return false
-- 
2.43.0


From b5b1a4db0c127aa62d89274c579e9579c5c64872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 06/42] fix: a line comment at end of input does not close the
 enclosing construct

---
 src/core/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index f2d2599..6fe4bb5 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -500,6 +500,10 @@ func (parser *Parser) Next() ParseResult {
 // This method is useful when testing for script completeness in interactive
 // mode and prompt for more input
 func (parser *Parser) CloseStream() ParseResult {
+	if _, ok := (parser.context.node).(*lineCommentNode); ok {
+		// End of stream also closes line comments, but not their parent context
+		parser.closeLineComment()
+	}
 	if parser.context.node != nil {
 		switch (parser.context.node).(type) {
 		case *tupleNode:
@@ -514,8 +518,6 @@ func (parser *Parser) CloseStream() ParseResult {
 			return PARSE_ERROR("unmatched here-string delimiter")
 		case *taggedStringNode:
 			return PARSE_ERROR("unmatched tagged string delimiter")
-		case *lineCommentNode:
-			parser.closeLineComment()
 		case *blockCommentNode:
 			return PARSE_ERROR("unmatched block comment delimiter")
 		default:
-- 
2.43.0


From c856de28b051bd2a7f20127d2d7b3fd825bf2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 07/42] fix: scripts with invalid words give an error instead
 of a panic

---
 src/core/compiler.go        | 19 +++++++++++++++++++
 src/core/evaluator.go       | 20 +++++++++-----------
 src/core/syntax.go          | 11 +++++++++++
 src/helena_dialect/core.go  | 19 ++++++++++++++++++-
 src/helena_dialect/lists.go |  5 ++++-
 5 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index a9a5a89..4e699c0 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -108,6 +108,9 @@ func NewCompiler(options *CompilerOptions) Compiler {
 //
 
 // Compile the given script into a program
+//
+// Panic with a SyntaxError if the script contains invalid words; use
+// {@link TryCompileScript} to get the error as a result
 func (compiler Compiler) CompileScript(script Script) *Program {
 	program := NewProgram(
 		compiler.options.CapturePositions,
@@ -119,6 +122,14 @@ func (compiler Compiler) CompileScript(script Script) *Program {
 	compiler.emitScript(program, script)
 	return program
 }
+
+// Compile the given script into a program, or return an error if it contains
+// invalid words
+func (compiler Compiler) TryCompileScript(script Script) (result Result, program *Program) {
+	defer recoverSyntaxError(&result)
+	return OK(NIL), compiler.CompileScript(script)
+}
+
 func (compiler Compiler) emitScript(program *Program, script Script) {
 	if len(script.Sentences) == 0 {
 		program.PushOpCode(OpCode_PUSH_NIL, script.Position)
@@ -144,6 +155,14 @@ func (compiler Compiler) CompileSentences(sentences []Sentence) *Program {
 	program.PushOpCode(OpCode_MAKE_TUPLE, nil)
 	return program
 }
+
+// Flatten and compile the given sentences into a program, or return an error if
+// they contain invalid words
+func (compiler Compiler) TryCompileSentences(sentences []Sentence) (result Result, program *Program) {
+	defer recoverSyntaxError(&result)
+	return OK(NIL), compiler.CompileSentences(sentences)
+}
+
 func (compiler Compiler) emitSentences(
 	program *Program,
 	sentences []Sentence,
diff --git a/src/core/evaluator.go b/src/core/evaluator.go
index eafcab4..869b201 100644
--- a/src/core/evaluator.go
+++ b/src/core/evaluator.go
@@ -53,7 +53,10 @@ func NewCompilingEvaluator(
 //
 // This will compile then execute the script
 func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
-	program := evaluator.compiler.CompileScript(script)
+	result, program := evaluator.compiler.TryCompileScript(script)
+	if result.Code != ResultCode_OK {
+		return result
+	}
 	return evaluator.executor.Execute(program, nil)
 }
 
@@ -63,7 +66,10 @@ func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
 func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result {
 	script := Script{}
 	script.Sentences = append(script.Sentences, sentence)
-	program := evaluator.compiler.CompileScript(script)
+	result, program := evaluator.compiler.TryCompileScript(script)
+	if result.Code != ResultCode_OK {
+		return result
+	}
 	return evaluator.executor.Execute(program, nil)
 }
 
@@ -71,15 +77,7 @@ func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result
 //
 // This will execute a single-word program
 func (evaluator *CompilingEvaluator) EvaluateWord(word Word) (result Result) {
-	defer func() {
-		if err := recover(); err != nil {
-			if e, ok := err.(SyntaxError); ok {
-				result = ERROR(e.message)
-			} else {
-				panic(err)
-			}
-		}
-	}()
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileWord(word)
 	return evaluator.executor.Execute(program, nil)
 }
diff --git a/src/core/syntax.go b/src/core/syntax.go
index e112dee..985b322 100644
--- a/src/core/syntax.go
+++ b/src/core/syntax.go
@@ -21,6 +21,17 @@ var InvalidWordStructureError = SyntaxError{"invalid word structure"}
 // Thrown when a word contains an unexpected morpheme
 var UnexpectedMorphemeError = SyntaxError{"unexpected morpheme"}
 
+// Turn a panicking syntax error into an error result
+func recoverSyntaxError(result *Result) {
+	if err := recover(); err != nil {
+		if e, ok := err.(SyntaxError); ok {
+			*result = ERROR(e.message)
+		} else {
+			panic(err)
+		}
+	}
+}
+
 //
 // Helena script
 //
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index b0361eb..0580c78 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -303,9 +303,26 @@ func (scope *Scope) NewLocalScope(slots map[string]uint, values []core.Value) *S
 	return child
 }
 
+// Compile the given script into a program
+//
+// Scripts with invalid words compile to a program that raises the syntax error
+// when executed
 func (scope *Scope) Compile(script core.Script) *core.Program {
-	return scope.compiler.CompileScript(script)
+	result, program := scope.compiler.TryCompileScript(script)
+	if result.Code != core.ResultCode_OK {
+		return scope.CompileArgs([]core.Value{
+			core.NewCommandValue(syntaxErrorCommand{result}),
+		})
+	}
+	return program
 }
+
+type syntaxErrorCommand struct{ error core.Result }
+
+func (command syntaxErrorCommand) Execute(_ []core.Value, _ any) core.Result {
+	return command.error
+}
+
 func (scope *Scope) Execute(program *core.Program, state *core.ProgramState) core.Result {
 	return scope.executor.Execute(program, state)
 }
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..86c5678 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -433,9 +433,12 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 		if script.Cache.Values != nil {
 			return core.OK(core.NIL), script.Cache.Values
 		}
-		program := core.NewCompiler(nil).CompileSentences(
+		compileResult, program := core.NewCompiler(nil).TryCompileSentences(
 			value.(core.ScriptValue).Script.Sentences,
 		)
+		if compileResult.Code != core.ResultCode_OK {
+			return core.ERROR("invalid list"), nil
+		}
 		listExecutor := core.Executor{}
 		result := listExecutor.Execute(program, nil)
 		if result.Code != core.ResultCode_OK {
-- 
2.43.0


From d8ba2a3070a3a3dda9bffc21f7849b4316a384dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 08/42] fix: reject malformed argument specifications instead
 of panicking or dropping arguments

---
 src/helena_dialect/arguments.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 44d6ea5..11d746d 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -71,6 +71,9 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 			return result, nil
 		}
 		if option != nil {
+			if lastOption != nil {
+				return core.ERROR(`missing argument for option "` + OptionName(lastOption.Names) + `"`), nil
+			}
 			if hasRemainder {
 				return core.ERROR("cannot use remainder argument before options"), nil
 			}
@@ -93,10 +96,13 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 					`argument for flag "` + OptionName(lastOption.Names) + `" must be optional`,
 				), nil
 			}
+			if arg.Type == ArgumentType_REMAINDER {
+				return core.ERROR(
+					`argument for option "` + OptionName(lastOption.Names) + `" cannot be a remainder`,
+				), nil
+			}
 			arg.Option = lastOption
-			args = append(args, arg)
 			lastOption = nil
-			continue
 		}
 
 		if arg.Type == ArgumentType_REMAINDER && hasRemainder {
@@ -105,7 +111,7 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 		if _, ok := argnames[arg.Name]; ok {
 			return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
 		}
-		hasRemainder = arg.Type == ArgumentType_REMAINDER
+		hasRemainder = hasRemainder || arg.Type == ArgumentType_REMAINDER
 		argnames[arg.Name] = struct{}{}
 		args = append(args, arg)
 	}
@@ -224,13 +230,20 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 						(nameOrDefault == "" || nameOrDefault == "?") {
 						return core.ERROR("empty argument name"), Argument{}
 					}
-					if result1.Code == core.ResultCode_OK && nameOrGuard[0] == '?' {
+					if len(nameOrGuard) > 1 && nameOrGuard[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:    nameOrGuard[1:],
 							Type:    ArgumentType_OPTIONAL,
 							Default: specs[1],
 						}
-					} else if nameOrDefault[0] == '?' {
+					}
+					if result2.Code != core.ResultCode_OK {
+						return core.ERROR("invalid argument name"), Argument{}
+					}
+					if nameOrGuard == "?" || nameOrDefault == "" || nameOrDefault == "?" {
+						return core.ERROR("empty argument name"), Argument{}
+					}
+					if nameOrDefault[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:  nameOrDefault[1:],
 							Type:  ArgumentType_OPTIONAL,
-- 
2.43.0


From cee64419857ea1ed240517d58fa8a50d52693bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 09/42] fix: an option given without its value is an error, not
 a crash

---
 src/helena_dialect/argspecs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 5cd7a8b..ffcc6ce 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -318,6 +318,11 @@ func (argspec ArgspecValue) findSlots(
 				slots[optionSlot] = i
 				i++
 			case OptionType_OPTION:
+				if i+1 >= len(args) {
+					return core.ERROR(
+						`missing value for option "` + OptionName(arg.Option.Names) + `"`,
+					), findSlotsResult{}
+				}
 				switch arg.Type {
 				case ArgumentType_REQUIRED:
 					nbRequired -= 2
-- 
2.43.0


From e8046d1ab875c34749546ea09f256bb532567ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 10/42] fix: copy remainder arguments bound along with options

---
 src/helena_dialect/argspecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index ffcc6ce..e221283 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -193,7 +193,7 @@ func (argspec ArgspecValue) setSlotValues(
 					value = core.TUPLE([]core.Value{})
 				} else {
 					value = core.TUPLE(
-						args[slots[slot] : slots[slot]+int(remainders)],
+						append([]core.Value{}, args[slots[slot]:slots[slot]+int(remainders)]...),
 					)
 				}
 			}
-- 
2.43.0


From bd3a03d063f331b037bbaf66f731f85c36fe17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 11/42] fix: run default argument scripts to completion

---
 src/helena_dialect/argspecs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index e221283..0578eb6 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -170,7 +170,7 @@ func (argspec ArgspecValue) setSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
@@ -381,7 +381,7 @@ func (argspec ArgspecValue) setPositionalSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
-- 
2.43.0


From a2a708e34e04f01c29d543546611f211156e417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 12/42] fix: setting variables from an argspec is all or
 nothing

---
 src/helena_dialect/core.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 0580c78..e841b85 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -510,15 +510,25 @@ func (scope *Scope) SetNamedVariable(name string, value core.Value) core.Result
 	return core.OK(value)
 }
 func (scope *Scope) SetNamedVariables(slots map[string]uint, values []core.Value) core.Result {
+	names := make([]string, len(values))
 	for name, slot := range slots {
+		names[slot] = name
+	}
+	// Check all the variables before setting any of them
+	for slot, name := range names {
 		if values[slot] == nil {
 			continue
 		}
-		result := scope.SetNamedVariable(name, values[slot])
+		result := scope.checkNamedVariable(name)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
 	}
+	for slot, name := range names {
+		if values[slot] != nil {
+			scope.Context.Variables[name] = values[slot]
+		}
+	}
 	return core.OK(core.NIL)
 }
 func (scope *Scope) DestructureVariable(variable core.Value, value core.Value, check bool) core.Result {
-- 
2.43.0


From cd9b9b0c27c4b51f2680347c900300367124558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 13/42] fix: an ensemble call leaves the caller's arguments
 untouched while its subcommand runs

---
 src/helena_dialect/ensembles.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/helena_dialect/ensembles.go b/src/helena_dialect/ensembles.go
index c40c2aa..dd71e40 100644
--- a/src/helena_dialect/ensembles.go
+++ b/src/helena_dialect/ensembles.go
@@ -191,15 +191,13 @@ func (ensemble *EnsembleCommand) Execute(args []core.Value, context any) core.Re
 	}
 	var result core.Result
 	if ensemble.argspec.Argspec.IsFast() {
-		// Here we can just modify the args array in place and avoid the
-		// overhead of copying it to a new array. This provides a huge speedup
-		// for most subcommand dispatches.
-		old := args[minArgs]
-		copy(args[2:minArgs+1], args[1:minArgs])
-		args[1] = command
-		result = command.Command().Execute(args[1:], scope)
-		copy(args[1:minArgs], args[2:minArgs+1])
-		args[minArgs] = old
+		// Don't modify the args array in place, as it belongs to the caller and
+		// the subcommand may keep it across continuations
+		cmdline := make([]core.Value, len(args)-1)
+		cmdline[0] = command
+		copy(cmdline[1:minArgs], args[1:minArgs])
+		copy(cmdline[minArgs:], args[minArgs+1:])
+		result = command.Command().Execute(cmdline, scope)
 	} else {
 		cmdline := make([]core.Value, 1, len(args)-1)
 		cmdline[0] = command
-- 
2.43.0


From 3927e015162ac13114e55b7fe705519caab08748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 14/42] fix: help on an ensemble subcommand with fewer
 parameters than the ensemble does not crash

---
 src/helena_dialect/arguments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 11d746d..626f697 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -312,7 +312,7 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 
 func BuildUsage(args []Argument, skip uint) string {
 	result := ""
-	for i, arg := range args[skip:] {
+	for i, arg := range args[min(skip, uint(len(args))):] {
 		if i != 0 {
 			result += " "
 		}
-- 
2.43.0


From 9b0de0b30ca8455017dbac58c3fce7b3c68c19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 15/42] fix: catch without handlers runs its body to completion

---
 src/helena_dialect/controls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..1759852 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -606,7 +606,7 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From 0942baf8e9904ebb5e5a520c224e343f4e6aef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 16/42] fix: catch rejects bodies and handlers that are not
 scripts instead of panicking

---
 src/helena_dialect/controls.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1759852..d6779ef 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -600,11 +600,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 	if checkResult.Code != core.ResultCode_OK {
 		return checkResult
 	}
+	body := args[1]
+	if body.Type() != core.ValueType_SCRIPT {
+		return core.ERROR("body must be a script")
+	}
 	if len(args) == 2 {
-		body := args[1]
-		if body.Type() != core.ValueType_SCRIPT {
-			return core.ERROR("body must be a script")
-		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
 		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
@@ -640,8 +640,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -675,14 +674,14 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -717,7 +716,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
@@ -813,6 +812,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 					if result, _ := core.ValueToString(args[i+1]); result.Code != core.ResultCode_OK {
 						return core.ERROR(`invalid ` + keyword + ` handler parameter name`)
 					}
+					if args[i+2].Type() != core.ValueType_SCRIPT {
+						return core.ERROR(keyword + ` handler body must be a script`)
+					}
 					i += 3
 				}
 			}
@@ -823,6 +825,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 			case 1:
 				return core.ERROR(`wrong #args: missing ` + keyword + ` handler body`)
 			default:
+				if args[i+1].Type() != core.ValueType_SCRIPT {
+					return core.ERROR(keyword + ` handler body must be a script`)
+				}
 				i += 2
 			}
 		default:
-- 
2.43.0


From 7c5759035cfaa231be9b8560cb1900aec5cd0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 17/42] fix: resuming a yield that left a catch without yield
 handler does not crash

---
 src/helena_dialect/controls.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index d6779ef..98177e6 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -622,7 +622,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Unhandled yield from the body, which is over now
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
@@ -658,6 +662,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 				i := cmd.findHandlerIndex(state.bodyResult.Code, state.args)
 				if i >= len(state.args)-1 {
 					state.result = state.bodyResult
+					if state.result.Code == core.ResultCode_YIELD {
+						// The body is abandoned, so is the state needed to resume it
+						state.result.Data = nil
+					}
 					state.step = catchStateStep_beforeFinally
 					continue
 				}
-- 
2.43.0


From 03f55769878c4bf5ff07915737ffc374c416b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 18/42] fix: a coroutine that fails is done and refuses further
 values instead of crashing

---
 src/helena_dialect/coroutines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 8f6aa2e..937ed66 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -103,8 +103,10 @@ func (cmd *coroutineCommand) run() core.Result {
 	case core.ResultCode_YIELD:
 		return core.OK(result.Value)
 	case core.ResultCode_ERROR:
+		cmd.state = coroutineState_done
 		return result
 	default:
+		cmd.state = coroutineState_done
 		return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
 	}
 }
-- 
2.43.0


From ceff64833e372b67ea379c07050a7967c50ab7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 19/42] fix: resuming a coroutine from its own body is an error
 and does not corrupt it

---
 src/helena_dialect/coroutines.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 937ed66..4bc495d 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -15,6 +15,7 @@ type coroutineCommand struct {
 	scope   *Scope
 	body    core.ScriptValue
 	state   coroutineState
+	running bool
 	process *Process
 }
 
@@ -54,6 +55,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> wait")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if cmd.state == coroutineState_inactive {
 			cmd.state = coroutineState_active
 			program := cmd.scope.CompileScriptValue(cmd.body)
@@ -83,6 +87,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if cmd.state == coroutineState_done {
 			return core.ERROR("coroutine is done")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if len(args) == 3 {
 			cmd.process.YieldBack(args[2])
 		}
@@ -94,7 +101,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 }
 
 func (cmd *coroutineCommand) run() core.Result {
+	cmd.running = true
 	result := cmd.process.Run()
+	cmd.running = false
 	switch result.Code {
 	case core.ResultCode_OK,
 		core.ResultCode_RETURN:
-- 
2.43.0


From f05ae4fda28037de66608a2da94c0e4cff4a7f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 20/42] fix: capturing the stack of an error raised after an
 empty body does not crash

---
 src/helena_dialect/core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index e841b85..28b0463 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -163,7 +163,7 @@ func (process *Process) Run() core.Result {
 				errorStack := result.Data.(*core.ErrorStack)
 				var level core.ErrorStackLevel
 				var frame = append([]core.Value{}, context.state.LastFrame...)
-				if context.program.OpCodePositions != nil {
+				if context.program.OpCodePositions != nil && context.state.PC > 0 {
 					level = core.ErrorStackLevel{
 						Frame:    &frame,
 						Source:   context.program.Source,
-- 
2.43.0


From f7ca326da6d4680eceaa4c9371e97e6d8125650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 21/42] fix: don't use pooled command states after giving them
 back

---
 src/helena_dialect/controls.go | 25 ++++++++++++++++---------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 98177e6..f633d89 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -356,11 +361,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -550,18 +556,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
-	whenCmdStatePool.Put(state)
 	var body core.Value
 	if state.i == len(state.cases)-1 {
 		body = state.cases[state.i]
 	} else {
 		body = state.cases[state.i+1]
 	}
+	scope := state.scope
+	whenCmdStatePool.Put(state)
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..4551d56 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -251,11 +251,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -300,11 +301,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From 4ef68692dc5033b59d93ff1d790142df2d1551b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 22/42] fix: range, remove and replace accept the largest
 integer as last index

---
 src/helena_dialect/lists.go   | 6 +++---
 src/helena_dialect/strings.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 86c5678..3a54d2c 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last+1, length)]))
+		return core.OK(core.LIST(values[first:min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -164,7 +164,7 @@ func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	newValues := make([]core.Value, 0, len(head)+len(tail))
 	newValues = append(append(newValues, head...), tail...)
 	return core.OK(core.LIST(newValues))
@@ -234,7 +234,7 @@ func (listReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := ValueToArray(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..027c0c7 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last+1, length)]))
+		return core.OK(core.STR(str[first:min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -161,7 +161,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -227,7 +227,7 @@ func (stringReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := core.ValueToString(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
-- 
2.43.0


From b0b3b976e36d3a0dce8375f5acd056eaf8a6b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 23/42] fix: comparing scripts or lists as strings is an error,
 not a crash

---
 src/helena_dialect/strings.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 027c0c7..85f4230 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -251,18 +251,14 @@ func STRING_OPERATOR_ARITY_ERROR(operator string) core.Result {
 }
 
 type binaryCmd struct {
-	name      string
-	whenEqual bool
-	fn        func(op1 string, op2 string) bool
+	name string
+	fn   func(op1 string, op2 string) bool
 }
 
 func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
-		return core.OK(core.BOOL(cmd.whenEqual))
-	}
 	result1, operand1 := core.ValueToString(args[1])
 	if result1.Code != core.ResultCode_OK {
 		return result1
@@ -280,12 +276,12 @@ func (cmd binaryCmd) Help(args []core.Value, options core.CommandHelpOptions, co
 	return core.OK(core.STR(STRING_OPERATOR_SIGNATURE(cmd.name)))
 }
 
-var eqCmd = binaryCmd{"==", true, func(op1 string, op2 string) bool { return op1 == op2 }}
-var neCmd = binaryCmd{"!=", false, func(op1 string, op2 string) bool { return op1 != op2 }}
-var gtCmd = binaryCmd{">", false, func(op1 string, op2 string) bool { return op1 > op2 }}
-var geCmd = binaryCmd{">=", true, func(op1 string, op2 string) bool { return op1 >= op2 }}
-var ltCmd = binaryCmd{"<", false, func(op1 string, op2 string) bool { return op1 < op2 }}
-var leCmd = binaryCmd{"<=", true, func(op1 string, op2 string) bool { return op1 <= op2 }}
+var eqCmd = binaryCmd{"==", func(op1 string, op2 string) bool { return op1 == op2 }}
+var neCmd = binaryCmd{"!=", func(op1 string, op2 string) bool { return op1 != op2 }}
+var gtCmd = binaryCmd{">", func(op1 string, op2 string) bool { return op1 > op2 }}
+var geCmd = binaryCmd{">=", func(op1 string, op2 string) bool { return op1 >= op2 }}
+var ltCmd = binaryCmd{"<", func(op1 string, op2 string) bool { return op1 < op2 }}
+var leCmd = binaryCmd{"<=", func(op1 string, op2 string) bool { return op1 <= op2 }}
 
 func registerStringCommands(scope *Scope) {
 	command := newStringCommand(scope)
-- 
2.43.0


From 65f0a7002b3f8abe464ba4c5c695ce6f69094259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 24/42] fix: Picol equality on scripts and tuples compares
 their text or fails instead of panicking

---
 src/picol_dialect/picol_dialect.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..6449fd2 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -168,15 +168,31 @@ var divideCmd = makeCommand(
 	},
 )
 
+// Nil compares as the empty string
+func asOperand(value core.Value) (core.Result, string) {
+	if value == core.NIL {
+		return core.OK(core.NIL), ""
+	}
+	return core.ValueToString(value)
+}
+
 func compareValuesCmd(
 	name string,
-	fn func(op1 core.Value, op2 core.Value) bool,
+	fn func(op1 string, op2 string) bool,
 ) core.Command {
 	return makeCommand(func(args []core.Value, context any) core.Result {
 		if len(args) != 3 {
 			return ARITY_ERROR(name + ` arg arg`)
 		}
-		if fn(args[1], args[2]) {
+		result1, op1 := asOperand(args[1])
+		if result1.Code != core.ResultCode_OK {
+			return result1
+		}
+		result2, op2 := asOperand(args[2])
+		if result2.Code != core.ResultCode_OK {
+			return result2
+		}
+		if fn(op1, op2) {
 			return core.OK(core.TRUE)
 		} else {
 			return core.OK(core.FALSE)
@@ -186,11 +202,11 @@ func compareValuesCmd(
 
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 string, op2 string) bool { return op1 == op2 },
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 string, op2 string) bool { return op1 != op2 },
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From 7ad993da6609f367c59459c6fca3caaf9bbf1fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 25/42] fix: Picol procedures called without their optional
 arguments get empty trailing args

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 6449fd2..9b36ab9 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -515,7 +515,7 @@ func (proc procCommand) Execute(args []core.Value, context any) core.Result {
 		argspec := proc.argspecs[p]
 		var value core.Value
 		if p == len(proc.argspecs)-1 && argspec.name == "args" {
-			value = core.TUPLE(append([]core.Value{}, args[a:]...))
+			value = core.TUPLE(append([]core.Value{}, args[min(a, len(args)):]...))
 			a = len(args) - 1
 		} else if p < len(args)-1 {
 			value = args[a]
-- 
2.43.0


From dff90670890ea654cf65d7dfdcc23adf05ff140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 26/42] fix: Picol commands reject bodies that are not scripts
 instead of panicking

---
 src/picol_dialect/picol_dialect.go | 50 +++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 9b36ab9..c6a9bdf 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -58,6 +58,14 @@ func (scope *PicolScope) resolveNamedCommand(name string) core.Command {
 	return nil
 }
 
+func asScript(value core.Value) (core.Result, core.ScriptValue) {
+	script, ok := value.(core.ScriptValue)
+	if !ok {
+		return core.ERROR("invalid script"), script
+	}
+	return core.OK(core.NIL), script
+}
+
 func asString(value core.Value) (s string) { _, s = core.ValueToString(value); return }
 
 var EMPTY = core.OK(core.STR(""))
@@ -316,15 +324,19 @@ var ifCmd = makeCommand(
 		if testResult.Code != core.ResultCode_OK {
 			return testResult
 		}
-		var script core.ScriptValue
+		var body core.Value
 		if testResult.Value.(core.BooleanValue).Value {
-			script = args[2].(core.ScriptValue)
+			body = args[2]
 		} else if len(args) == 3 {
 			return EMPTY
 		} else {
-			script = args[4].(core.ScriptValue)
+			body = args[4]
+		}
+		result, script := asScript(body)
+		if result.Code != core.ResultCode_OK {
+			return result
 		}
-		result := scope.Evaluator.EvaluateScript(script.Script)
+		result = scope.Evaluator.EvaluateScript(script.Script)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
@@ -341,11 +353,19 @@ var forCmd = makeCommand(
 		if len(args) != 5 {
 			return ARITY_ERROR("for start test next command")
 		}
-		start := args[1].(core.ScriptValue)
+		result, start := asScript(args[1])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		test := args[2]
-		next := args[3].(core.ScriptValue)
-		script := args[4].(core.ScriptValue)
-		var result core.Result
+		result, next := asScript(args[3])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
+		result, script := asScript(args[4])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		result = scope.Evaluator.EvaluateScript(start.Script)
 		if result.Code != core.ResultCode_OK {
 			return result
@@ -387,8 +407,10 @@ var whileCmd = makeCommand(
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-		script := args[2].(core.ScriptValue)
-		var result core.Result
+		result, script := asScript(args[2])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		for {
 			result = evaluateCondition(test, scope)
 			if result.Code != core.ResultCode_OK {
@@ -635,12 +657,16 @@ var procCmd = makeCommand(
 		if len(args) != 4 {
 			return ARITY_ERROR("proc name args body")
 		}
-		name, _argspecs, body := args[1], args[2], args[3]
+		name, _argspecs := args[1], args[2]
 		result, argspecs := valueToArgspecs(_argspecs)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
-		scope.Commands[asString(name)] = procCommand{argspecs, body.(core.ScriptValue)}
+		result, body := asScript(args[3])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
+		scope.Commands[asString(name)] = procCommand{argspecs, body}
 		return EMPTY
 	},
 )
-- 
2.43.0


From 12212461fd67c7c805ccf212d94b01a951d461d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 27/42] fix: Picol while rejects extra arguments

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index c6a9bdf..aa5a355 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -403,7 +403,7 @@ var forCmd = makeCommand(
 var whileCmd = makeCommand(
 	func(args []core.Value, context any) core.Result {
 		scope := context.(*PicolScope)
-		if len(args) != 3 && len(args) != 5 {
+		if len(args) != 3 {
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-- 
2.43.0


From cf178db32c36cd3f14ea5953786a6e72c2f4edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 28/42] fix: variadic value subcommands called with no value
 report wrong arguments instead of panicking

---
 src/helena_dialect/dicts.go   | 6 ++++++
 src/helena_dialect/lists.go   | 3 +++
 src/helena_dialect/scripts.go | 3 +++
 src/helena_dialect/strings.go | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 38e6be4..fb3bfe1 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -165,6 +165,9 @@ const DICT_REMOVE_SIGNATURE = "dict value remove ?key ...?"
 type dictRemoveCmd struct{}
 
 func (dictRemoveCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_REMOVE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
@@ -191,6 +194,9 @@ const DICT_MERGE_SIGNATURE = "dict value merge ?dict ...?"
 type dictMergeCmd struct{}
 
 func (dictMergeCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_MERGE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 3a54d2c..8fc19e2 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -123,6 +123,9 @@ const LIST_APPEND_SIGNATURE = "list value append ?list ...?"
 type listAppendCmd struct{}
 
 func (listAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(LIST_APPEND_SIGNATURE)
+	}
 	result, values := ValueToArray(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/scripts.go b/src/helena_dialect/scripts.go
index 5293c32..2e7d60c 100644
--- a/src/helena_dialect/scripts.go
+++ b/src/helena_dialect/scripts.go
@@ -82,6 +82,9 @@ const SCRIPT_APPEND_SIGNATURE = "script value append ?script ...?"
 type scriptAppendCmd struct{}
 
 func (scriptAppendCmd) Execute(args []core.Value, context any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(SCRIPT_APPEND_SIGNATURE)
+	}
 	result := valueToScript(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 85f4230..4076520 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -120,6 +120,9 @@ const STRING_APPEND_SIGNATURE = "string value append ?string ...?"
 type stringAppendCmd struct{}
 
 func (stringAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(STRING_APPEND_SIGNATURE)
+	}
 	result, str := core.ValueToString(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
-- 
2.43.0


From d465116f1d30f57c4f9ef59c60974e77b4d4126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 29/42] fix: remove and foreach subcommands agree with their
 help on argument counts

---
 src/helena_dialect/dicts.go   | 2 +-
 src/helena_dialect/lists.go   | 4 ++--
 src/helena_dialect/strings.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index fb3bfe1..3e3de94 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -381,7 +381,7 @@ func (dictForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (dictForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(DICT_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(DICT_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 8fc19e2..2b8750c 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -149,7 +149,7 @@ const LIST_REMOVE_SIGNATURE = "list value remove first last"
 type listRemoveCmd struct{}
 
 func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(LIST_REMOVE_SIGNATURE)
 	}
 	result, values := ValueToArray(args[1])
@@ -412,7 +412,7 @@ func (listForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (listForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(LIST_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(LIST_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 4076520..983b7fe 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -146,7 +146,7 @@ const STRING_REMOVE_SIGNATURE = "string value remove first last"
 type stringRemoveCmd struct{}
 
 func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	result, str := core.ValueToString(args[1])
@@ -168,7 +168,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 5 {
+	if len(args) > 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	return core.OK(core.STR(STRING_REMOVE_SIGNATURE))
-- 
2.43.0


From 02559f221d031342d9ef6bc4a41cd657a4f4c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 30/42] fix: interactive mode waits for the next line after a
 line continuation

---
 src/cli/cli.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index db60c81..45102aa 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -198,16 +198,17 @@ func prompt() {
 var lastResult = core.OK(core.NIL)
 
 func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
-	input := core.NewStringStream(cmd)
-	tokens := []core.Token{}
-	output := core.NewArrayTokenStream(tokens, input.Source())
-	(&core.Tokenizer{}).TokenizeStream(input, output)
-	if len(tokens) > 0 &&
-		tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
+	// Lines are read without their final newline, so add it back to detect
+	// continuations
+	tokens := core.Tokenizer{}.Tokenize(cmd + "\n")
+	if tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
 		// Continuation, wait for next line
 		return nil, recoverableError{"continuation"}
 	}
 
+	input := core.NewStringStream(cmd)
+	output := core.NewArrayTokenStream([]core.Token{}, input.Source())
+	(&core.Tokenizer{}).TokenizeStream(input, output)
 	parser := core.NewParser(&core.ParserOptions{CapturePositions: true})
 	parseResult := parser.ParseStream(output)
 	if !parseResult.Success {
-- 
2.43.0


From e073f8e73d2ef73b31a39578746b63f186abf494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 31/42] fix: if reached under the name else does not treat its
 own name as a keyword

---
 src/helena_dialect/controls.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index f633d89..a9bc001 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -344,12 +344,20 @@ func (cmd ifCmd) Execute(args []core.Value, context any) core.Result {
 func (ifCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	return core.OK(core.STR(IF_SIGNATURE))
 }
+
+// The first argument is the command name, never a keyword
+func ifCmdIsElse(args []core.Value, i int) bool {
+	if i == 0 {
+		return false
+	}
+	_, keyword := core.ValueToString(args[i])
+	return keyword == "else"
+}
 func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 	if i >= len(args) {
 		return core.OK(core.NIL)
 	}
-	_, keyword := core.ValueToString(args[i])
-	if keyword == "else" {
+	if ifCmdIsElse(args, i) {
 		return ifCmdBody(scope, args, i)
 	}
 	test := args[i+1]
@@ -385,7 +393,7 @@ func ifCmdNext(value core.Value, scope *Scope, args []core.Value, i int) core.Re
 }
 func ifCmdBody(scope *Scope, args []core.Value, i int) core.Result {
 	var body core.Value
-	if _, s := core.ValueToString(args[i]); s == "else" {
+	if ifCmdIsElse(args, i) {
 		body = args[i+1]
 	} else {
 		body = args[i+2]
-- 
2.43.0


From 80e15c5d9cb50b11b3be5612406013bd92ebb28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 32/42] fix: strings made of a backslash are displayed quoted
 so that they read back

---
 src/core/display.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/display.go b/src/core/display.go
index 9b62e00..0e7e4a3 100644
--- a/src/core/display.go
+++ b/src/core/display.go
@@ -6,6 +6,7 @@ package core
 
 import (
 	"regexp"
+	"strings"
 )
 
 // Value display function
@@ -65,7 +66,7 @@ func DisplayLiteralOrString(str string) string {
 	if len(tokens) == 0 {
 		return `""`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && !strings.Contains(str, `\`) {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"({[]`)
@@ -82,7 +83,7 @@ func DisplayLiteralOrBlock(str string) string {
 	if len(tokens) == 0 {
 		return `{}`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && !strings.Contains(str, `\`) {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"#(){}[\]]`)
-- 
2.43.0


From d0e4cfc8dea800c647235de7cae66d0489e79544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 33/42] fix: selector rules given to a selector resolver are
 not overwritten later

---
 src/core/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index 4e699c0..4f6e5a1 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -874,7 +874,7 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			{
 				rules := state.LastFrame
 				value := state.Pop()
-				result, selector := executor.resolveSelector(rules)
+				result, selector := executor.resolveSelector(append([]Value{}, rules...))
 				if result.Code != ResultCode_OK {
 					return result
 				}
-- 
2.43.0


From 79189f3d075647b3026c0b91bb681a2a2d182ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 34/42] fix: a dollar before a closing delimiter is a literal
 like at any word end

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 6fe4bb5..d5ea190 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -632,6 +632,7 @@ func (parser *Parser) openTuple(token Token) {
 
 // Close the tuple parsing context
 func (parser *Parser) closeTuple() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -671,6 +672,7 @@ func (parser *Parser) closeBlock() {
 		value += token.Literal
 	}
 	node.value = value
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -703,6 +705,7 @@ func (parser *Parser) openExpression(token Token) {
 
 // Close the expression parsing context
 func (parser *Parser) closeExpression() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
-- 
2.43.0


From 34d365db8117626fd6cb3014ed1173cf10280287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 35/42] fix: a stale dollar after a substitution does not
 become part of the variable name

---
 src/core/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index d5ea190..13fff1a 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -1154,6 +1154,13 @@ func (parser *Parser) endSubstitution() {
 			break
 		}
 	}
+	morphemes := *parser.context.morphemes
+	if len(morphemes) >= 2 {
+		if _, ok := morphemes[len(morphemes)-2].(*substituteNextNode); ok {
+			// Don't merge the literal with a substituted source
+			parser.context.substitutionMode = substitutionMode_EXPECT_SELECTOR
+		}
+	}
 	parser.addLiteral(firstToken, value)
 }
 func (parser *Parser) withinSubstitution() bool {
-- 
2.43.0


From 3b2eb89cfb32f7dbcca70d69f3c50f8394734ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 36/42] fix: comparing numbers given as scripts or as the
 string NaN

---
 src/helena_dialect/numbers.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/helena_dialect/numbers.go b/src/helena_dialect/numbers.go
index 7b2b8ae..0fa7c31 100644
--- a/src/helena_dialect/numbers.go
+++ b/src/helena_dialect/numbers.go
@@ -126,16 +126,12 @@ func arithmetics(args []core.Value, operand1 float64) core.Result {
 
 func binaryOp(
 	operator string,
-	whenEqual bool,
 	fn func(op1 float64, op2 float64) bool,
 ) func(args []core.Value, operand1 float64) core.Result {
 	return func(args []core.Value, operand1 float64) core.Result {
 		if len(args) != 3 {
 			return OPERATOR_ARITY_ERROR(operator)
 		}
-		if args[0] == args[2] {
-			return core.OK(core.BOOL(whenEqual))
-		}
 		result, operand2 := core.ValueToFloat(args[2])
 		if result.Code != core.ResultCode_OK {
 			return result
@@ -144,12 +140,12 @@ func binaryOp(
 	}
 }
 
-var eqOp = binaryOp("==", true, func(op1 float64, op2 float64) bool { return op1 == op2 })
-var neOp = binaryOp("!=", false, func(op1 float64, op2 float64) bool { return op1 != op2 })
-var gtOp = binaryOp(">", false, func(op1 float64, op2 float64) bool { return op1 > op2 })
-var geOp = binaryOp(">=", true, func(op1 float64, op2 float64) bool { return op1 >= op2 })
-var ltOp = binaryOp("<", false, func(op1 float64, op2 float64) bool { return op1 < op2 })
-var leOp = binaryOp("<=", true, func(op1 float64, op2 float64) bool { return op1 <= op2 })
+var eqOp = binaryOp("==", func(op1 float64, op2 float64) bool { return op1 == op2 })
+var neOp = binaryOp("!=", func(op1 float64, op2 float64) bool { return op1 != op2 })
+var gtOp = binaryOp(">", func(op1 float64, op2 float64) bool { return op1 > op2 })
+var geOp = binaryOp(">=", func(op1 float64, op2 float64) bool { return op1 >= op2 })
+var ltOp = binaryOp("<", func(op1 float64, op2 float64) bool { return op1 < op2 })
+var leOp = binaryOp("<=", func(op1 float64, op2 float64) bool { return op1 <= op2 })
 
 func floatToValue(f float64) core.Value {
 	i := int64(f)
-- 
2.43.0


From 9a2a527f8f8435a9efe1b27c1ba0a90a12d9451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 37/42] fix: repeating the last result after a resumed yield
 does not yield again

---
 src/core/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index 4f6e5a1..84d4105 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -800,6 +800,9 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			if result.Code != ResultCode_OK {
 				return result
 			}
+		} else {
+			// The yielded back value is the regular result of the command
+			state.SetResult(OK(state.Result.Value))
 		}
 	}
 	for state.PC < stop {
-- 
2.43.0


From fe32da4dc8ad49d40a041d1bd1c9278477e39701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 38/42] fix: accept an option terminator only after options

---
 src/helena_dialect/argspecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 0578eb6..d0dc9e1 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -337,7 +337,7 @@ func (argspec ArgspecValue) findSlots(
 				}
 			}
 		}
-		if i < len(args) {
+		if i < len(args) && lastSlot > firstSlot {
 			// Skip first trailing terminator
 			result, optname := core.ValueToString(args[i])
 			if result.Code == core.ResultCode_OK && optname == "--" {
-- 
2.43.0


From 7e7d4c8968475d0746237269ccff87df937a9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 39/42] fix: reject extra arguments and invalid names in os
 ReadFile

---
 src/native/go_os/go_os.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/native/go_os/go_os.go b/src/native/go_os/go_os.go
index 03035d9..f5dd133 100644
--- a/src/native/go_os/go_os.go
+++ b/src/native/go_os/go_os.go
@@ -26,10 +26,13 @@ func (OsCmd) Execute(args []core.Value, _ any) core.Result {
 	// https://pkg.go.dev/os
 	switch method {
 	case "ReadFile":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "os ReadFile name"`)
 		}
-		name, _ := asString((args[2]))
+		name, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid file name")
+		}
 		data, err := os.ReadFile(name)
 		if err != nil {
 			return core.ERROR(err.Error())
-- 
2.43.0


From 6c83686d647a63aa17fa5c7facde20ffd4b2d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 40/42] fix: log exactly the given message and reject misuse in
 slog

---
 src/native/go_slog/go_slog.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 263251d..3c32ca4 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -26,29 +26,43 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 	// TODO Attrs and Values https://pkg.go.dev/log/slog@go1.22.2#hdr-Attrs_and_Values
 	switch method {
 	case "Debug":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Debug msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Debug(msg)
 	case "Error":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
-		msg, _ := asString((args[2]))
-		slog.Error(msg, "toto", 1)
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
+		slog.Error(msg)
 	case "Info":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Info(msg)
 	case "Warn":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Warn msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Warn(msg)
+	default:
+		return core.ERROR("unsupported method " + method)
 	}
 	return core.OK(core.NIL)
 }
-- 
2.43.0


From 949df6986b70e103241155740f64882614507699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 41/42] fix: do not retain the values of finished executions in
 pooled program states

---
 src/core/compiler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index 84d4105..4115829 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -667,7 +667,11 @@ func NewProgramState() *ProgramState {
 }
 
 // Reset program state
+//
+// Past values are cleared as the state may outlive them when it is reused
 func (state *ProgramState) Reset() {
+	clear(state.stack[:cap(state.stack)])
+	clear(state.frameResults[:cap(state.frameResults)])
 	state.stack = state.stack[:0]
 	state.frames = state.frames[:1]
 	state.frames[0] = 0
-- 
2.43.0


From 57e7fbe7d2bd1a2db8c11e240b3cf3cdfe95fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 42/42] fix: unset removes all the variables of nested tuples
 with repeated names

---
 src/helena_dialect/variables.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/helena_dialect/variables.go b/src/helena_dialect/variables.go
index ab5eedd..a195c44 100644
--- a/src/helena_dialect/variables.go
+++ b/src/helena_dialect/variables.go
@@ -132,7 +132,7 @@ func (unsetCmd) Execute(args []core.Value, context any) core.Result {
 	scope := context.(*Scope)
 	switch len(args) {
 	case 2:
-		return unset(scope, args[1], false)
+		return unset(scope, args[1])
 	default:
 		return ARITY_ERROR(UNSET_SIGNATURE)
 	}
@@ -144,25 +144,26 @@ func (unsetCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.R
 	return core.OK(core.STR(UNSET_SIGNATURE))
 }
 
-func unset(scope *Scope, name core.Value, check bool) core.Result {
+func unset(scope *Scope, name core.Value) core.Result {
+	// First pass for error checking
+	result := unsetVariables(scope, name, true)
+	if result.Code != core.ResultCode_OK {
+		return result
+	}
+	// Second pass for actual unsetting
+	unsetVariables(scope, name, false)
+	return core.OK(core.NIL)
+}
+func unsetVariables(scope *Scope, name core.Value, check bool) core.Result {
 	if name.Type() != core.ValueType_TUPLE {
 		return scope.UnsetVariable(name, check)
 	}
-	variables := name.(core.TupleValue)
-	// First pass for error checking
-	for i := 0; i < len(variables.Values); i++ {
-		result := unset(scope, variables.Values[i], true)
-		if result.Code != core.ResultCode_OK {
+	for _, variable := range name.(core.TupleValue).Values {
+		result := unsetVariables(scope, variable, check)
+		if check && result.Code != core.ResultCode_OK {
 			return result
 		}
 	}
-	if check {
-		return core.OK(core.NIL)
-	}
-	// Second pass for actual setting
-	for i := 0; i < len(variables.Values); i++ {
-		unset(scope, variables.Values[i], false)
-	}
 	return core.OK(core.NIL)
 }
 
-- 
2.43.0

