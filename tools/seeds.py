# Planted bugs: see mkseed.py.
S=[]
def seed(id,prop,needs,breaks,edits,demo,**kw):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,**kw))
def build(*rules):
    return '''keep_rules %s
overlay cmd/tsgolint/main.go=$W/main.go
go build -overlay "$W/overlay.json" -o "$W/tsgolint" ./cmd/tsgolint || exit 3
mkdir "$W/p"
echo '{"compilerOptions":{"strict":true,"target":"esnext","module":"esnext","moduleDetection":"force"}}' > "$W/p/tsconfig.json"
''' % ' '.join(rules)
L='internal/linter/linter.go'
H='cmd/tsgolint/headless.go'

seed('c01-debug-log-stdout','C01','OXC_LOG=debug in the environment',
 'with debug logging on, log lines are written to standard output between the frames',
 [(H,'''	log.SetOutput(os.Stderr)
''','''	if logLevel != utils.LogLevelDebug {
		log.SetOutput(os.Stderr)
	} else {
		// keep the log beside the messages it explains
		log.SetOutput(os.Stdout)
	}
''')],
 build('await_thenable')+'''
echo 'await 1;' > "$W/p/a.ts"
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"await-thenable"}]}]}' > "$W/pl"
OXC_LOG=debug headless "$W/pl" > "$W/frames"
cat "$W/frames"
[ "$(wc -l < "$W/frames")" = 1 ] && grep -q '^1 .*await-thenable' "$W/frames"
''')

seed('c02-collapse-same-range','C02','two rules that report the very same range one after the other',
 'a diagnostic on the range of the previous one is not forwarded, even if another rule reports it',
 [(L,'''	onDiagnostic func(rule.RuleDiagnostic)
}

// Calls''','''	onDiagnostic func(rule.RuleDiagnostic)
	lastFile     *ast.SourceFile
	lastRange    core.TextRange
}

// Calls'''),(L,'''	d.SourceFile = b.file
	b.onDiagnostic(d)
''','''	d.SourceFile = b.file
	if b.lastFile == b.file && b.lastRange == d.Range && d.Range.Len() > 0 {
		// a listener that fires twice for the same node
		return
	}
	b.lastFile, b.lastRange = b.file, d.Range
	b.onDiagnostic(d)
''')],
 build('no_unsafe_call','no_floating_promises','no_unsafe_argument','no_unsafe_return','no_unsafe_assignment')+'''
cat > "$W/p/a.ts" <<'T'
declare const a: any;
declare function f(x: string): void;
f(a);
export const g = (): string => a;
const s: Set<string> = new Set<any>();
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"no-unsafe-assignment"},{"name":"no-unsafe-return"},{"name":"no-unsafe-argument"},{"name":"twice"}]}]}' > "$W/pl"
# a rule that reports the same node twice, with two messages
mkdir "$W/twice"
cat > "$W/twice/twice.go" <<'G'
package twice

import (
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

var TwiceRule = rule.Rule{Name: "twice", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
	return rule.RuleListeners{ast.KindCallExpression: func(node *ast.Node) {
		ctx.ReportNode(node, rule.RuleMessage{Id: "one", Description: "one"})
		ctx.ReportNode(node, rule.RuleMessage{Id: "two", Description: "two"})
	}}
}}
G
sed -i -e 's#^var allRules = \\[\\]rule.Rule{#&\\n\\ttwice.TwiceRule,#' -e '0,/^import (/s##import (\\n\\t"github.com/typescript-eslint/tsgolint/internal/rules/twice"#' "$W/main.go"
overlay cmd/tsgolint/main.go=$W/main.go internal/rules/twice/twice.go=$W/twice/twice.go
go build -overlay "$W/overlay.json" -o "$W/tsgolint" ./cmd/tsgolint || exit 3
headless "$W/pl" > "$W/frames"
cat "$W/frames"
grep -q '"id":"one"' "$W/frames" && grep -q '"id":"two"' "$W/frames"
''')

seed('c03-missing-cwd','C03','the working directory was removed before the command started',
 'a failure to determine the working directory is not reported: the run goes on with a made-up one and exits with zero',
 [(H,'''	cwd, err := os.Getwd()
	if err != nil {
		writeErrorMessage(fmt.Sprintf("error getting current directory: %v", err))
		return 1
	}
''','''	cwd, err := os.Getwd()
	if err != nil {
		log.Printf("WARNING: cannot determine the current directory: %v", err)
		cwd = os.TempDir()
	}
''')],
 build('await_thenable')+'''
echo '{"version":2,"configs":[]}' > "$W/pl"
mkdir "$W/gone"
rc=$(cd "$W/gone" && rmdir "$W/gone" && env -u PWD "$W/tsgolint" headless < "$W/pl" > "$W/out.bin" 2> "$W/err.txt"; echo $?)
cat "$W/err.txt"; echo "rc=$rc size=$(wc -c < "$W/out.bin")"
[ "$rc" != 0 ] && grep -qa 'getting current directory' "$W/out.bin"
''')

seed('c04-range-suggestions-gate','C04','suggestions requested without fixes, from a rule that reports a range rather than a node',
 'suggestions reported through the range entry point are gated by the fix switch instead of the suggestion switch',
 [(L,'''func (b *ruleContextBuilder) reportRangeWithSuggestions(textRange core.TextRange, msg rule.RuleMessage, suggestionsFn func() []rule.RuleSuggestion) {
	var suggestions []rule.RuleSuggestion
	if b.fixState.FixSuggestions {''','''func (b *ruleContextBuilder) reportRangeWithSuggestions(textRange core.TextRange, msg rule.RuleMessage, suggestionsFn func() []rule.RuleSuggestion) {
	var suggestions []rule.RuleSuggestion
	if b.fixState.Fix {''')],
 build('require_await')+'''
echo 'export async function f() { return 1; }' > "$W/p/a.ts"
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"require-await"}]}]}' > "$W/pl"
headless "$W/pl" -fix-suggestions > "$W/on"; headless "$W/pl" -fix > "$W/off"
cat "$W/on" "$W/off"
grep -q '"suggestions":\\[' "$W/on" && ! grep -q '"suggestions":\\[{' "$W/off"
''')

seed('c05-timed-rule-name','C05','rule timings requested, and two rules with listeners for the same node kind',
 'with timings on, a listener keeps the rule name of the previous listener: its diagnostics name another rule',
 [(L,'''							for _, listener := range listeners {
								ctxBuilder.ruleName = listener.ruleName
								start := time.Now()
''','''							ctxBuilder.ruleName = listeners[0].ruleName
							for _, listener := range listeners {
								start := time.Now()
'''),(L,'''						if listeners, ok := registeredListeners[kind]; ok {
							ctxBuilder''','''						if listeners, ok := registeredListeners[kind]; ok && len(listeners) > 0 {
							ctxBuilder''')],
 build('no_unsafe_call','no_unsafe_argument','no_implied_eval')+'''
cat > "$W/p/a.ts" <<'T'
declare const a: any;
declare function f(x: string): void;
a();
f(a);
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"no-unsafe-call"},{"name":"no-unsafe-argument"}]}]}' > "$W/pl"
headless "$W/pl" --debug=timings > "$W/frames"
cat "$W/frames"
grep -q '"rule":"no-unsafe-call"' "$W/frames" && grep -q '"rule":"no-unsafe-argument"' "$W/frames"
''')

seed('c06-queue-remainder','C06','a number of files that is no multiple of the number of checkers',
 'files are dealt out to the checkers in equal shares and the remainder is never linted',
 [(L,'''	queue := makeSourceFileQueue(files)
	flatQueue := []checkerWorkload{}
	var flatQueueMu sync.Mutex
	program.ForEachCheckerParallel(func(idx int, ch *checker.Checker) {
		flatQueueMu.Lock()
		flatQueue = append(flatQueue, checkerWorkload{ch, program, queue})
		flatQueueMu.Unlock()
	})
''','''	flatQueue := []checkerWorkload{}
	var flatQueueMu sync.Mutex
	program.ForEachCheckerParallel(func(idx int, ch *checker.Checker) {
		flatQueueMu.Lock()
		flatQueue = append(flatQueue, checkerWorkload{ch, program, nil})
		flatQueueMu.Unlock()
	})
	// One queue per checker, so that a checker keeps working on neighbouring files.
	share := max(len(files)/max(len(flatQueue), 1), 1)
	for i := range flatQueue {
		start := min(i*share, len(files))
		flatQueue[i].queue = makeSourceFileQueue(files[start:min(start+share, len(files))])
	}
''')],
 build('await_thenable')+'''
list=
for i in 1 2 3 4 5 6 7 8 9 10 11; do echo 'await 1;' > "$W/p/f$i.ts"; list="$list,\\"$W/p/f$i.ts\\""; done
echo '{"version":2,"configs":[{"file_paths":['${list#,}'],"rules":[{"name":"await-thenable"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"
echo "$(wc -l < "$W/frames") diagnostics for 11 files"
[ "$(sort -u "$W/frames" | wc -l)" = 11 ]
''')

seed('c07-after-return','C07','a function declared after the return statement of a block',
 'statements after a return are taken to be unreachable and never visited, but hoisted functions live there',
 [(L,"""		runListeners(rule.ListenerOnExit(node.Kind), node)

		return false
""","""		runListeners(rule.ListenerOnExit(node.Kind), node)

		// nothing behind a return statement runs
		return node.Kind == ast.KindReturnStatement
""")],
 build('await_thenable')+"""
cat > "$W/p/a.ts" <<'T'
export function f() {
  return g();
  async function g() { await 1; }
}
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"await-thenable"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"
cat "$W/frames"
grep -q 'await-thenable' "$W/frames"
""")

seed('c08-name-cache','C08','several files linted at the same time by a rule with a cache of its own',
 'the answers of a helper are kept in a package-level map that all workers write without a lock',
 [('internal/rules/dot_notation/dot_notation.go','''func isDotNotationIdentifier(name string) bool {
	if len(name) == 0 {
		return false
	}
''','''// The same property names come up again and again.
var dotNotationNames = map[string]bool{}

func isDotNotationIdentifier(name string) bool {
	if known, ok := dotNotationNames[name]; ok {
		return known
	}
	dotNotationNames[name] = computeDotNotationIdentifier(name)
	return dotNotationNames[name]
}

func computeDotNotationIdentifier(name string) bool {
	if len(name) == 0 {
		return false
	}
''')],
 build('dot_notation')+r'''
python3 - "$W" <<'P'
import sys,json
w=sys.argv[1]; fs=[]
for i in range(80):
    f=f'{w}/p/f{i}.ts'; fs.append(f)
    with open(f,'w') as o:
        o.write('export {}; declare const o: Record<string, number>;\n')
        for k in range(400): o.write(f'o["k{i}_{k}"];\n')
json.dump({"version":2,"configs":[{"file_paths":fs,"rules":[{"name":"dot-notation"}]}]},open(w+'/pl','w'))
P
for i in 1 2 3 4 5 6 7 8; do
  headless "$W/pl" > "$W/frames"
  [ "$(cat "$W/rc")" = 0 ] || { grep -a 'fatal error' "$W/err.txt"; exit 1; }
  [ "$(sort -u "$W/frames" | wc -l)" = 32000 ] || { wc -l "$W/frames"; exit 1; }
done
''')

seed('c09-missing-branches','C09','a switch over a union with several missing members',
 'missing members of a switch are collected in a set: message and suggestion list them in random order',
 [('internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go','''	missingLiteralBranchTypes := make([]*checker.Type, 0, 10)
''','''	missing := make(map[*checker.Type]struct{}, 10)
'''),('internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go','''		missingLiteralBranchTypes = append(missingLiteralBranchTypes, t)

		return false
	})
''','''		missing[t] = struct{}{}

		return false
	})

	// a literal may be met more than once
	missingLiteralBranchTypes := make([]*checker.Type, 0, len(missing))
	for t := range missing {
		missingLiteralBranchTypes = append(missingLiteralBranchTypes, t)
	}
''')],
 build('switch_exhaustiveness_check')+r'''
cat > "$W/p/a.ts" <<'T'
declare const a: 'a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g';
switch (a) { case 'a': break; }
export {};
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"switch-exhaustiveness-check"}]}]}' > "$W/pl"
for i in 1 2 3 4 5 6 7 8 9 10; do headless "$W/pl" -fix-suggestions >> "$W/all"; done
sort -u "$W/all" | head -3
[ "$(sort -u "$W/all" | wc -l)" = 1 ]
''')

seed('c09-readonly-order','C09','a class with several private members that are never modified',
 'members are reported in the order of a map instead of source order',
 [('internal/rules/prefer_readonly/prefer_readonly.go','''	for _, name := range m.order {
		if _, ok := skipped[name]; ok {
			continue
		}
		node, ok := m.nodes[name]
		if !ok || node == nil {
			continue
		}
''','''	for name, node := range m.nodes {
		if _, ok := skipped[name]; ok || node == nil {
			continue
		}
''')],
 build('prefer_readonly')+r'''
cat > "$W/p/a.ts" <<'T'
export class C { private a = 1; private b = 2; private c = 3; private d = 4; private e = 5; private f = 6; }
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"prefer-readonly"}]}]}' > "$W/pl"
for i in 1 2 3 4 5 6 7 8 9 10; do headless "$W/pl" | md5sum >> "$W/all"; done
sort -u "$W/all"
[ "$(sort -u "$W/all" | wc -l)" = 1 ]
''')

seed('c11-empty-options','C11','a rule configured with an empty options object',
 'an empty options object skips the decoder, so the rule runs with zero values instead of the declared defaults',
 [('internal/utils/utils.go','\tvar result T\n\n\t// Always marshal','\tvar result T\n\n\tif m, ok := options.(map[string]any); ok && len(m) == 0 {\n\t\t// nothing to decode\n\t\treturn result\n\t}\n\n\t// Always marshal')],
 build('no_floating_promises')+"""
cat > "$W/p/a.ts" <<'T'
declare const p: Promise<number>;
void p;
T
for o in '' ',"options":{}' ',"options":{"ignoreVoid":null}'; do
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"no-floating-promises"'"$o"'}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"
cat "$W/frames"
grep -q floating "$W/frames" && exit 1
done
exit 0
""")

seed('c10-plugin-prefix','C10','a request for an unknown rule name of the form plugin/known-name',
 'whatever stands before a slash in a requested rule name is dropped, so an unknown rule runs another rule instead of failing',
 [(H,'r, ok := allRulesByName[headlessRule.Name]','r, ok := allRulesByName[headlessRule.Name[strings.LastIndexByte(headlessRule.Name, \'/\')+1:]]'),
  (H,'\t"slices"\n','\t"slices"\n\t"strings"\n')],
 build('await_thenable')+"""
echo 'await 1;' > "$W/p/a.ts"
for n in await-thenable unicorn/await-thenable; do
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"'$n'"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"
echo "$n: $(cat "$W/rc")"; cat "$W/frames"
case $n in
await-thenable) [ "$(cat "$W/rc")" = 0 ] && grep -q '"rule":"await-thenable"' "$W/frames" || exit 1;;
*) [ "$(cat "$W/rc")" != 0 ] && ! grep -q '"rule":"await-thenable"' "$W/frames" || exit 1;;
esac
done
exit 0
""")

seed('c17-bigint-flag','C17','code in which a rule looks at the type of a bigint literal',
 'the flags of bigints and bigint literals are given the value of those of bigints alone, so literals are no bigints to the rules',
 [('shim/checker/shim.go','const TypeFlagsBigIntLike = checker.TypeFlagsBigIntLike','const TypeFlagsBigIntLike = checker.TypeFlagsBigInt')],
 build('no_unsafe_unary_minus')+"""
cat > "$W/p/a.ts" <<'T'
declare const a: bigint;
-a;
declare const b: 1n;
-b;
declare const s: string;
-s;
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"no-unsafe-unary-minus"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"
cat "$W/frames"
[ "$(grep -c no-unsafe-unary-minus "$W/frames")" = 1 ]
""")

seed('c23-kept-payload','C23','a request that cannot be decoded',
 'a request that cannot be decoded is kept in the directory for temporary files, so linting writes a file nobody asked for',
 [(H,'\t\twriteErrorMessage(fmt.Sprintf("error parsing config: %v", err))\n\t\treturn 1','\t\tif f, ferr := os.CreateTemp("", "tsgolint-payload-*.json"); ferr == nil {\n\t\t\t_, _ = f.Write(jsonPayload)\n\t\t\t_ = f.Close()\n\t\t}\n\t\twriteErrorMessage(fmt.Sprintf("error parsing config: %v", err))\n\t\treturn 1')],
 build('await_thenable')+"""
echo 'await 1;' > "$W/p/a.ts"
mkdir "$W/tmp"
export TMPDIR="$W/tmp"
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"await-thenable"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
echo '{"version":2,"configs":[' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
[ -z "$(ls -A "$W/tmp")" ]
""")

seed('c14-empty-text','C14','an override whose text is empty, for a file that is not empty on disk',
 'an override with an empty text is taken for no override, so the text on disk is linted',
 [('cmd/tsgolint/overlayfs.go','	if content, ok := o.overrides[path]; ok {\n','	if content := o.overrides[path]; content != "" {\n')],
 build('await_thenable')+"""
echo 'await 1;' > "$W/p/a.ts"
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"await-thenable"}]}],"source_overrides":{"'$W'/p/a.ts":"await 2; await 3;"}}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
[ "$(grep -c await-thenable "$W/frames")" = 2 ] || exit 1
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"await-thenable"}]}],"source_overrides":{"'$W'/p/a.ts":""}}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
[ "$(grep -c await-thenable "$W/frames")" = 0 ]
""")

PL='cmd/tsgolint/payload.go'
seed('c13-shared-rules','C13','an old-format request in which a file is followed by one with fewer or other rules',
 'converting an old-format request reuses one buffer for the rules, so the rules of a later file overwrite those of the files before it',
 [(PL,'	for i, fileV1 := range payloadV1.Files {\n		config','	var rules []headlessRule\n	for i, fileV1 := range payloadV1.Files {\n		rules = rules[:0]\n		for _, rule := range fileV1.Rules {\n			rules = append(rules, headlessRule{Name: rule}) // V1 rules are just strings\n		}\n		config'),
  (PL,'			Rules:     make([]headlessRule, len(fileV1.Rules)),\n		}\n		for j, rule := range fileV1.Rules {\n			config.Rules[j] = headlessRule{Name: rule} // V1 rules are just strings\n		}\n','			Rules:     rules,\n		}\n')],
 build('await_thenable','no_array_delete')+"""
cat > "$W/p/a.ts" <<'T'
await 1;
T
cat > "$W/p/b.ts" <<'T'
declare const a: number[];
delete a[0];
T
echo '{"files":[{"file_path":"'$W'/p/a.ts","rules":["await-thenable"]},{"file_path":"'$W'/p/b.ts","rules":["no-array-delete"]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
[ "$(cat "$W/rc")" = 0 ] && [ "$(grep -c await-thenable "$W/frames")" = 1 ] && [ "$(grep -c no-array-delete "$W/frames")" = 1 ]
""")

seed('c15-clean-file-stops','C15','semantic errors are asked for, and a file without any is followed by one with some',
 'the loop over the files of a program ends at the first one without semantic errors, so those of the files after it are not reported',
 [(L,'			if len(finalDiagnostics) == 0 && len(includeProcessorDiagnostics) == 0 {\n				continue\n','			if len(finalDiagnostics) == 0 && len(includeProcessorDiagnostics) == 0 {\n				break\n')],
 build('await_thenable')+"""
echo 'export const a: number = 1;' > "$W/p/a.ts"
echo 'export const b: number = "";' > "$W/p/b.ts"
req() {
  echo '{"version":2,"configs":[{"file_paths":['"$1"'],"rules":[]}],"report_semantic":true}' > "$W/pl"
  headless "$W/pl" > "$W/frames"; cat "$W/frames"
  [ "$(grep -c TS2322 "$W/frames")" = 1 ] || exit 1
}
req "\\"$W/p/b.ts\\""
req "\\"$W/p/a.ts\\",\\"$W/p/b.ts\\""
""")

CP='internal/utils/create_program.go'
seed('c16-shared-path','C16','a project whose configuration files have faulty options in two different files',
 'the problems of a configuration share one variable for the path of the file they are in, so all of them name the file of the last',
 [(CP,'		internalDiags := make([]diagnostic.Internal, len(configParseResult.Errors))\n		for i, e := range configParseResult.Errors {\n			loc := e.Loc()\n			filePath := resolvedConfigPath\n','		internalDiags := make([]diagnostic.Internal, len(configParseResult.Errors))\n		var filePath string\n		for i, e := range configParseResult.Errors {\n			loc := e.Loc()\n			filePath = resolvedConfigPath\n')],
 build('await_thenable')+"""
echo 'await 1;' > "$W/p/a.ts"
echo '{"compilerOptions":{"baseTypo":true}}' > "$W/p/base.json"
echo '{"extends":"./base.json","compilerOptions":{"ownTypo":true},"files":["a.ts"]}' > "$W/p/tsconfig.json"
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"await-thenable"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
grep baseTypo "$W/frames" | grep -q '/p/base.json' && grep ownTypo "$W/frames" | grep -q '/p/tsconfig.json'
""")

seed('c27-stale-labels','C27','a diagnostic with labelled ranges is followed by one without',
 'the frame is kept from one diagnostic to the next and its members are set one by one, so the labelled ranges of an earlier diagnostic are still there',
 [(H,'		for d := range diagnosticsChan {\n			var hd headlessDiagnostic\n','		var hd headlessDiagnostic\n		for d := range diagnosticsChan {\n'),
  (H,'''				hd = headlessDiagnostic{
					Kind:          headlessDiagnosticKindRule,
					Range:         headlessRangeFromRange(rd.Range),
					Rule:          &rd.RuleName,
					Message:       headlessRuleMessageFromRuleMessage(rd.Message),
					Fixes:         nil,
					Suggestions:   nil,
					FilePath:      &filePath,
					LabeledRanges: nil,
				}
''','''				hd.Kind = headlessDiagnosticKindRule
				hd.Range = headlessRangeFromRange(rd.Range)
				hd.Rule = &rd.RuleName
				hd.Message = headlessRuleMessageFromRuleMessage(rd.Message)
				hd.FilePath = &filePath
''')],
 build('no_for_in_array','no_array_delete')+"""
cat > "$W/p/a.ts" <<'T'
declare const a: number[];
delete a[0];
T
cat > "$W/p/b.ts" <<'T'
declare const a: number[];
for (const i in a) {}
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"no-array-delete"},{"name":"no-for-in-array"}]},{"file_paths":["'$W'/p/b.ts"],"rules":[{"name":"no-array-delete"},{"name":"no-for-in-array"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
grep no-array-delete "$W/frames" | grep -q labeled_ranges && ! grep no-for-in-array "$W/frames" | grep -q labeled_ranges
""")

seed('c12-variable-circle','C12','prefer-regexp-exec meets a pattern that is a variable initialized from another one that is initialized from it',
 'of the variables passed on the way to the value of the pattern only the last is remembered, so going round in a circle is never noticed and the process overflows its stack',
 [('internal/rules/prefer_regexp_exec/prefer_regexp_exec.go','''				if _, seen := visited[symbol]; seen {
					return staticArgumentValue{kind: staticArgumentValueUnknown}
				}
				visited[symbol] = struct{}{}
				defer delete(visited, symbol)

				if symbol''','''				if _, seen := visited[symbol]; seen && len(visited) > 1 {
					return staticArgumentValue{kind: staticArgumentValueUnknown}
				}
				clear(visited)
				visited[symbol] = struct{}{}

				if symbol''')],
 build('prefer_regexp_exec')+"""
cat > "$W/p/a.ts" <<'T'
const ok: string = 'abc';
'text'.match(ok);
'text'.match('abc');
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"prefer-regexp-exec"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
[ "$(cat "$W/rc")" = 0 ] || exit 1
cat > "$W/p/a.ts" <<'T'
const one: string = two;
const two: string = one;
'text'.match(one);
'text'.match('abc');
T
headless "$W/pl" > "$W/frames"; head -3 "$W/err.txt" | cut -c1-200
[ "$(cat "$W/rc")" = 0 ] && grep -q prefer-regexp-exec "$W/frames"
""")

seed('c12-batched-queue','C12','a program with more files to lint than fit into the buffer of the queue of a checker',
 'the queue of the files of a checker has room for at most 64 files, but it is filled before anything is taken from it',
 [(L,'	queue := make(chan *ast.SourceFile, len(files))\n','	queue := make(chan *ast.SourceFile, min(len(files), 64))\n')],
 build('await_thenable')+"""
many() {
  rm -f "$W"/p/f*.ts
  fs=""
  for i in $(seq 1 $1); do echo 'await 1; export {};' > "$W/p/f$i.ts"; fs="$fs,\\"$W/p/f$i.ts\\""; done
  echo '{"version":2,"configs":[{"file_paths":['"${fs#,}"'],"rules":[{"name":"await-thenable"}]}]}' > "$W/pl"
  headless "$W/pl" > "$W/frames"
  echo "files: $1, reports: $(grep -c awaitThen "$W/frames") rc $(cat "$W/rc")"
  [ "$(cat "$W/rc")" = 0 ] || exit 1
}
many 20
many 600
""")

seed('c26-rare-comparison','C26','a boolean is compared with the literal false (comparisons with true are reported as before)',
 'the message for a comparison with a literal is chosen by two conditions that leave one case out, and is empty in that case',
 [('internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go','				} else {\n					msg = buildDirectMessage()\n				}\n','				} else if comparison.literalBooleanInComparison {\n					msg = buildDirectMessage()\n				}\n')],
 build('no_unnecessary_boolean_literal_compare')+"""
cat > "$W/p/a.ts" <<'T'
declare const b: boolean;
if (b === true) {}
if (b === false) {}
if (b !== true) {}
if (b !== false) {}
T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":"no-unnecessary-boolean-literal-compare"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"
[ "$(grep -c '"rule"' "$W/frames")" = 4 ] && ! grep -q '"id":""' "$W/frames" && ! grep -q '"description":""' "$W/frames"
""")

def crash(rule, src, want):
    return build(rule.replace('-','_'))+"""
cat > "$W/p/a.ts" <<'T'
"""+src+"""T
echo '{"version":2,"configs":[{"file_paths":["'$W'/p/a.ts"],"rules":[{"name":\""""+rule+"""\"}]}]}' > "$W/pl"
headless "$W/pl" > "$W/frames"; cat "$W/frames"; grep -a -m3 '^panic' "$W/err.txt"
[ "$(cat "$W/rc")" = 0 ] && [ "$(grep -c '"rule"' "$W/frames")" = """+str(want)+""" ]
"""

seed('c18-anonymous-default','C18','export default of a function without a name that returns a value on one path only',
 'consistent-return takes every function that is not an arrow function to have a name; one that has none ends the run',
 [('internal/rules/consistent_return/consistent_return.go','	if nameNode == nil {\n		return kindPrefix\n	}\n\n	nameText','	if ast.IsArrowFunction(node) {\n		return kindPrefix\n	}\n\n	nameText')],
 crash('consistent-return',"export default function (a: boolean) {\n  if (a) {\n    return 1;\n  }\n  return;\n}\n",1))

seed('c18-bare-yield','C18','an async generator with a yield that has no operand',
 'require-await looks at the operand of every yield of a generator; a yield without one ends the run',
 [('internal/rules/require_await/require_await.go','if currentScope.functionFlags&ast.FunctionFlagsGenerator == 0 || argument == nil {','if currentScope.functionFlags&ast.FunctionFlagsGenerator == 0 {')],
 crash('require-await',"export async function* f() {\n  yield;\n}\nexport async function g() {\n  return 1;\n}\n",2))

seed('c18-plain-export-name','C18','a re-exported name that is not renamed, next to a type',
 'consistent-type-exports reads the original name of every exported name; one that is exported under its own name ends the run',
 [('internal/rules/consistent_type_exports/consistent_type_exports.go','	local := specifier.Name().AsNode()\n	if specifier.PropertyName != nil {\n		local = specifier.PropertyName.AsNode()\n	}\n','	local := specifier.PropertyName.AsNode()\n	if local.Kind == ast.KindUnknown {\n		local = specifier.Name().AsNode()\n	}\n')],
 crash('consistent-type-exports',"import { A, b } from './b';\nexport { A as C, b };\n",1).replace("""echo '{"version":2""","""echo 'export interface A {} export const b = 1;' > "$W/p/b.ts"; echo '{"version":2""",1))
