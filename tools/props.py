import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

DM="dandy/src/dfa/mod.rs"; DE="dandy/src/dfa/eval.rs"; DP="dandy/src/dfa/parse.rs"
NM="dandy/src/nfa/mod.rs"; NE="dandy/src/nfa/eval.rs"; NP="dandy/src/nfa/parse.rs"; NW="dandy/src/nfa/words.rs"
PF="dandy/src/parser/fa.rs"; PR="dandy/src/parser/regex.rs"; PM="dandy/src/parser/mod.rs"; RX="dandy/src/regex/mod.rs"
TB="dandy/src/table/mod.rs"; UT="dandy/src/util.rs"
CM="dandy-cli/src/main.rs"; CA="dandy-cli/src/automata.rs"; CE="dandy-cli/src/equivalence.rs"; CB="dandy-cli/src/binary_op.rs"; CN="dandy-cli/src/enumerate.rs"; CT="dandy-cli/src/test_files.rs"
WA="dandy-wasm/src/lib.rs"; DR="dandy-draw/src/lib.rs"

p("P01","A DFA accepts exactly the words its transition table accepts",
"For every DFA and every word, the word is accepted exactly when following the transition table from the initial state, one symbol at a time, ends in an accepting state; feeding the word whole, as a grapheme string, in pieces or one symbol at a time gives the same answer and visits the same states. A word that contains a symbol outside the alphabet is rejected, and an evaluation that has met such a symbol never accepts again. Stepping a copy of an evaluation, or asking for all one-symbol continuations (one per symbol, in alphabet order), never disturbs the original.",
["inputs","histories"],"all DFAs, all words over and outside the alphabet, all ways of splitting a word into evaluator calls",
"The tests evaluate random words only as a side effect of other operations; the quantifier is over every table, every word length and every interleaving of evaluator calls, and evaluators are never stepped after an unknown symbol or cloned in a test.",
[DE,DM],[("evaluator stepping through a symbol-to-column map",DE),("accepts / accepts_graphemes drive an evaluator",DM)],
["accepts","accepts_graphemes","evaluator step/step_multiple/step_all/current state"],
[("current state + unknown-symbol latch","where the run is, and whether it has fallen off the alphabet",DE)])

p("P02","An NFA accepts exactly the words some run (with empty moves) accepts",
"For every NFA, with or without empty moves, a word is accepted exactly when some path that reads the word, taking empty moves freely before, between and after symbols, leads from the initial state to an accepting state; an evaluation reports at every point exactly the set of states such paths can be in. Feeding the word whole, as graphemes, in pieces or symbol by symbol agrees; a word with a symbol outside the alphabet is rejected and the evaluation never accepts again. The empty-move closure reported for a state is exactly the states reachable from it by empty moves (nothing for an index that is no state), and copies or one-symbol continuations of an evaluation never disturb the original.",
["inputs","histories"],"all NFAs (any empty-move structure including cycles), all words, all ways of splitting a word into evaluator calls",
"Tests compare NFA operations with each other through the same evaluator, so an evaluator error cancels out; no test has an independent notion of a run, and closures are never checked.",
[NE,NM],[("set-of-states stepping followed by closure to a fixpoint",NE),("closure",NM)],
["accepts","accepts_graphemes","evaluator current states","closure"],
[("current state set","all states some run can be in",NE)])

p("P03","Converting between NFA and DFA preserves the language",
"Converting an NFA to a DFA yields a complete DFA over the same alphabet in the same order that accepts exactly the same words, whose every state is reachable, whose distinct states stand for distinct reachable sets of NFA states, and whose states are named by the numbers from 0 on, the initial state coming first and being named 0. Converting a DFA to an NFA keeps alphabet, state names, order, initial and accepting marks and every transition, and adds no empty moves.",
["inputs"],"all NFAs (including ones with empty moves, dead ends and an empty alphabet) and all DFAs",
"The round-trip tests sample dense random automata (each transition present with probability 1/2), where nearly all subsets behave alike; sparse automata with dead ends, unreachable parts and empty-set states are almost never drawn.",
[NM,DM],[("reduced subset construction keyed by sorted state sets",NM),("state-by-state conversion",DM)],["to_dfa","to_nfa"])

p("P04","Minimization gives the unique smallest equivalent DFA",
"Minimizing any DFA yields a well-formed DFA over the same alphabet that accepts exactly the same words and has exactly as many states as there are distinguishable reachable states in the original: no state is unreachable and no two states can be merged. Every surviving state keeps its own name and accepting mark, and minimizing again changes nothing.",
["inputs"],"all DFAs, including ones with unreachable states, several equivalent states, an initial state in any position, all or no accepting states",
"The test checks only that the minimized random DFA is equivalent to the original, never that it is minimal, and random DFAs almost never contain mergeable states.",
[DM],[("unreachable-state removal then partition refinement and merging with index remapping",DM)],["minimize","states","initial_state_index"])

p("P05","Reachability analysis and trimming are exact",
"For every DFA and NFA the states reported reachable are exactly those some input can lead to (through symbols and empty moves), and the states reported unreachable are exactly the others. Removing unreachable states leaves exactly the reachable ones, in their original order with their names, marks and transitions, and does not change which words are accepted; an automaton is said to have a reachable accepting state exactly when it accepts at least one word.",
["inputs"],"all DFAs and NFAs, every position of the initial state and of the unreachable states",
"The one test on trimming uses dense random NFAs in which unreachable states are very rare, and DFA trimming is only exercised through minimization.",
[DM,NM],[("fixpoint reachability",DM+", "+NM),("index-shifting state removal",DM+", "+NM)],["reachable_states","unreachable_states","remove_unreachable_states","has_reachable_accepting_state"])

p("P06","State equivalence classes are exactly the indistinguishable states",
"For every DFA the reported equivalence classes partition its states (reachable or not) so that two states are in the same class exactly when no word is accepted from one and rejected from the other. Merging non-distinguishable states leaves exactly one member of each class, unchanged in name and accepting mark, keeps the initial state's class initial, and leaves the accepted words unchanged.",
["inputs"],"all DFAs, including ones with unreachable states and with all or no states accepting",
"No test looks at the classes; the equivalence test on minimized random DFAs cannot tell whether too few states were merged, and random DFAs rarely contain two indistinguishable states.",
[DM],[("Hopcroft partition refinement",DM),("representative selection and transition remapping",DM)],["state_equivalence_classes(_idx)","merge_nondistinguishable_states"])

p("P07","DFA set operations compute the exact language combination",
"For two DFAs whose alphabets contain the same symbols, in any order, union, intersection, difference, symmetric difference and the product with any boolean combination accept exactly the words whose membership in the two operands combines accordingly; inverting a DFA accepts exactly the words over its alphabet it rejected before. The result uses the first operand's alphabet order and contains only reachable states with distinct names, and the operands are left unchanged. When the alphabets differ as sets there is no result.",
["inputs"],"all pairs of DFAs over equal (reordered) or different alphabets, all boolean combinators",
"Tests try 100 random words of length >=1 on random DFAs that share one alphabet set; they never give the empty word, clashing names or unequal alphabets.",
[DM,UT],[("product construction over pairs of evaluators",DM),("alphabet comparison as sets",UT)],["union","intersection","difference","symmetric_difference","product_construction","invert"])

p("P08","NFA union and intersection compute the exact language combination",
"For two NFAs whose alphabets contain the same symbols, in any order, union accepts exactly the words accepted by at least one and intersection exactly the words accepted by both, empty moves included; the product construction with an or-combination (a missing state counting as not accepting) also accepts exactly the union. A product with any other combination accepts at least every word that can lead the operands to states whose marks combine to true, and no word for which no pair of runs (a stuck run counting as not accepting) does. Results are well-formed, use the first operand's alphabet order and have distinct state names even when the operands' names clash. When the alphabets differ as sets no combination is produced, and union hands back both operands unchanged.",
["inputs"],"all pairs of NFAs, with empty moves, missing transitions, clashing names, reordered or different alphabets",
"nfa_binary_ops tries 50 random non-empty words on dense NFAs (p=1/2 per edge) that almost always accept everything; missing transitions and name clashes are practically never sampled.",
[NM,UT],[("union by a fresh initial state with empty moves and index shifting",NM),("pair exploration with optional components",NM)],["union","intersection","product_construction"])

p("P09","DFA equivalence verdicts are exact",
"Two DFAs are reported equivalent exactly when their alphabets contain the same symbols (in any order) and they accept exactly the same words. The verdict does not depend on the order of the two DFAs, on state names, state order or unreachable states, and a DFA is equivalent to itself.",
["inputs"],"all pairs of DFAs, including ones that first differ only on a long word and ones with reordered or different alphabets",
"Tests only assert equivalence of pairs that are equivalent; a verdict that is always true would pass most of them. Inequivalence found only at one deep pair of states is never exercised.",
[DM,UT],[("breadth of reachable state pairs with early exit",DM)],["Dfa::equivalent_to"])

p("P10","NFA equivalence verdicts are exact",
"Two NFAs, with or without empty moves, are reported equivalent exactly when their alphabets contain the same symbols (in any order) and they accept exactly the same words. The verdict does not depend on the order of the two NFAs, on state names, state order, transition order or unreachable states, and an NFA is equivalent to itself.",
["inputs"],"all pairs of NFAs, including ones that first differ on a long word and ones with dead ends or reordered or different alphabets",
"Tests only assert equivalence of pairs that are equivalent by construction; inequivalent pairs and dead runs are never compared.",
[NM,UT],[("exploration of reachable pairs of state sets",NM)],["Nfa::equivalent_to"])

p("P11","Removing empty moves preserves the language and leaves none behind",
"After removing empty moves from any NFA no state has an empty move, the alphabet is unchanged, the NFA is well-formed with distinct state names, and exactly the same words (the empty word included) are accepted as before. Accepting states are kept, a kept state keeps its name and (unless it is the initial one) its accepting mark, and at most one state, a new initial one, is added, behind the others. When there were empty moves, the states dropped are exactly the dead ones: neither initial nor accepting, and with transitions (extended by empty moves) to nothing but other dead states. Optimizing an NFA (trimming unreachable states, then removing empty moves) has the same guarantees.",
["inputs"],"all NFAs, any empty-move graph (cycles, self-loops, chains to accepting states), any position of the initial state",
"The test samples dense random NFAs, where the closure of any state is nearly everything; dead-state removal, initial-state replacement and index remapping after removal are hardly ever exercised.",
[NM],[("closure inlining, dead-state fixpoint, new initial state, state removal with remapping",NM)],["remove_epsilon_moves","optimize","has_epsilon_moves"])

p("P12","Word enumeration lists the whole language once, in order",
"For every NFA without empty moves, enumeration yields exactly the accepted words, each once, shorter words first and words of equal length in alphabet order, starting with the empty word if it is accepted; for a finite language it ends after the last word and stays ended, for an infinite one it never ends. The string, symbol and index views list the same words in the same order.",
["inputs","histories"],"all NFAs without empty moves, including finite and empty languages and languages with long gaps between word lengths; any number of calls",
"The test uses converted DFAs (complete, one run per word) and words up to length 3; real nondeterminism, missing transitions, finite languages and length gaps are not covered.",
[NW],[("cross-section enumeration with boolean adjacency-matrix powers and a stack of state sets",NW)],["words","word_components","word_component_indices"],
[("state stack, last word, matrix powers","iterator position; must stay consistent between calls",NW)])

p("P13","Printing an automaton as a table and loading it gives it back",
"For every DFA and NFA whose symbols and state names can be written in the file format (and, for a DFA, with at least one symbol), both the Unicode and the ASCII table can be loaded again and give the identical automaton: same alphabet order, state order, names, initial and accepting marks, and the same transitions in the same order. This holds for loaded automata and for those produced by any library operation, whatever characters or lengths the names have.",
["inputs"],"all automata, all state names and symbols the format allows, Unicode and ASCII form",
"The tests print random automata only in Unicode form with random names; names made of marker characters, combining or wide characters, and the ASCII form are not sampled on purpose.",
[TB,DM,NM,PF],[("column layout",TB),("table generation",DM+", "+NM),("table grammar",PF)],["to_table","ascii_table","parser::dfa","parser::nfa"])

p("P14","The table format means what the documentation says",
"A text is loaded as a DFA or NFA exactly when it follows the documented table format, and then the automaton has exactly the alphabet, states, marks and transitions written in it. Comments, blank lines, extra spaces and tabs, LF or CRLF line ends, a missing final newline, `->` for `→` and `eps` for `ε` never change the result. A text with anything else left over is refused, never partly loaded.",
["inputs"],"all texts up to a bounded number of tokens, and all valid tables with a bounded number of edits",
"Only machine-printed tables and a few hand-written files are ever parsed in tests; no malformed or unusually laid-out text is, so acceptance of bad input or misreading of layout goes unseen.",
[PF,PM,DP,NP],[("token grammar",PF),("whole-input requirement",PM)],["parser::dfa / parser::nfa + conversion"])

p("P15","Inconsistent tables are refused with a truthful reason",
"A syntactically well-formed table becomes an automaton exactly when the alphabet has no repeated symbol, no state is defined twice, exactly one state is initial, every row has one entry per column and every mentioned state is defined. Otherwise loading fails and the reported reason names a defect the table really has, with the right state, symbol and counts.",
["inputs"],"all small tables with any combination of these defects",
"Two doc examples cover the missing-initial-state error; no other error, and no combination of defects, is tested.",
[DP,NP],[("validation when converting a parsed table",DP+", "+NP)],["DfaParseError","NfaParseError"])

p("P16","A regular expression denotes exactly its mathematical language",
"A regular expression text is accepted exactly when it follows the documented grammar (symbols or escaped symbols, `ε`, `∅`, grouping, sequence, `|`, and one `*` or `+` after a symbol or group), ignoring surrounding whitespace. The automaton built from it accepts exactly the words the expression denotes, with repetition binding tighter than sequence and sequence tighter than alternation, and its alphabet is exactly the symbols that occur in the expression, each once, in order of first occurrence. The same holds for an expression given directly as a tree, where an empty sequence denotes the empty word and an empty alternation nothing.",
["inputs"],"all expression texts up to a bounded length over all operators, escapes and multi-codepoint symbols",
"The test compares with another engine on random words of random large expressions without ε, ∅, escapes or the empty word; most such words are simply rejected.",
[PR,RX],[("expression grammar",PR),("tree to automaton translation with running state numbers",RX)],["parser::regex","Regex::to_nfa"])

p("P17","Printing a regular expression preserves its meaning",
"For every regular expression that can be loaded, its printed form can be loaded again and denotes exactly the same language over exactly the same symbols. This includes escaped operators, escaped `ε` and `∅`, significant whitespace, nested groups and repetitions.",
["inputs"],"all loadable expressions up to a bounded size over all operators and escapes",
"The existing round-trip test generates only letters, ε and ∅, so escapes and whitespace symbols are never printed.",
[RX,PR],[("recursive printing with escaping and grouping",RX)],["Regex::to_string","parser::regex"])

p("P18","Every automaton reachable through operations stays well-formed",
"Whatever sequence of library operations produced it, an automaton has distinct symbols, at least one state, distinct state names, exactly one state marked initial (the one runs start from), one transition entry per symbol in every state, and only transitions to existing states. Each operation in such a sequence has the documented effect on the accepted words, however the automaton was produced, and no operation panics.",
["histories","inputs"],"all sequences of operations up to a bounded depth from a set of initial automata and expressions",
"Tests apply one or two operations to freshly generated automata; states only reachable by chains (renamed states, empty alphabets, products of products, re-trimmed automata) are never checked, and structural validity never is.",
[DM,NM,RX],[("index remapping in removal, merging, union and product",DM+", "+NM),("fresh naming",NM)],["all public operations on Dfa, Nfa, Regex"],
[("initial index vs. initial mark; names; transition indices","must agree after every operation",DM+", "+NM)])

p("P19","The browser handle registry keeps objects separate and alive",
"Through the browser bindings every successful load or conversion returns a handle never returned before, and a handle names the same object until it is deleted (a regex handle: until deleted or converted). Operations on one handle never affect another; conversions, table, equality and minimization give the library's results for the named objects, and any use of an unknown, deleted or wrong-kind handle reports absence (or false) and changes nothing. A failed load reports an error and registers nothing.",
["histories"],"all sequences of load, convert, minimize, compare, print and delete calls up to a bounded depth, including misuse of dead handles",
"The bindings have no tests at all; the property quantifies over call histories.",
[WA],[("per-kind maps and one shared key generator",WA)],["load_*","delete_*","*_to_*","check_*_eq","minimize_dfa","*_to_table"],
[("handle maps and key generator","which handles are alive and what they name",WA)])

p("P20","The command line's equivalence verdicts are right for every file",
"For a reference automaton or expression and any list of files, of any combination of kinds, the equivalence command reports for each file, in order, `Equivalent` exactly when it defines the same language over the same symbols as the reference, and otherwise why not (unreadable, unparsable, invalid, or not equivalent). With the minimized option (DFA files only; refused for other kinds) an equivalent file counts only if it has the smallest possible number of states. In true/false mode `true` means exactly equivalent, path shortening keeps the last n components, and the final count is the number of equivalent files.",
["configurations","inputs"],"all combinations of kinds and options over a set of file contents with every outcome",
"The command line has no tests; kinds x options x outcomes is a configuration space.",
[CE,CA,CM],[("preparing the reference for the tested kind",CE+", "+CA),("per-file verdict",CA),("path shortening",CM)],["stdout of dandy-cli equivalence"])

p("P21","The command line's set operations output the right automaton",
"For two inputs of any kinds over the same symbols, the union, intersection, difference and symmetric-difference commands print a DFA table (loadable whenever there are symbols and all of them can be written in the table format) accepting exactly the combined language, with the fewest possible states when minimization is requested; the requested number of words printed after it are the first words of that language in order, followed by a note when there are fewer. A comparison with a third input reports equivalence exactly when it holds. Inputs over different symbols, or that cannot be loaded, produce an error and no automaton.",
["configurations","inputs"],"all operations x input kinds x options over a set of inputs",
"The command line has no tests; nothing checks that each command maps to its operation or that options reach it.",
[CB,CA,CM],[("command dispatch",CM),("operand conversion, product, printing",CB)],["stdout/stderr of dandy-cli union|intersection|difference|symmetric-difference"])

p("P22","The command line's enumeration and test-file commands are exact",
"The enumeration commands print exactly the first n words of the given expression's or automaton's language in order, shorter first, showing the empty word as `(empty word)`, and fewer only when the language has fewer. The test-file command marks each line of each file accepted exactly when the automaton or expression accepts it and counts the accepted lines correctly; in whole-file mode a file passes exactly when all its lines are accepted and otherwise the first failing line is shown.",
["configurations","inputs"],"all input kinds (with and without empty moves), amounts and test modes over a set of inputs and line files",
"The command line has no tests.",
[CN,CT,CA,CM],[("empty-move removal before enumeration",CN),("line-by-line acceptance",CT)],["stdout of dandy-cli enumerate|enumerate-regex|test-file"])

p("P23","The output file holds exactly the printed results",
"When an output file is given, after any command it contains exactly the result lines that the command printed to standard output, in the same order and separated the same way, with no log lines and nothing left from earlier content. With logging reduced, standard output is exactly those result lines, and results are the same whether or not an output file is given or logging is reduced.",
["configurations"],"all commands x options x results, with and without an output file and reduced logging",
"The command line has no tests.",
[CM],[("result sink writing to stdout and file",CM)],["file given with --out","stdout"])

p("P24","ASCII drawings show the automaton and never fail",
"Drawing any DFA or NFA as ASCII art succeeds, whatever the length and script of its symbols and names. The last line shows every state once, in order, marked as accepting exactly when it is and with an entry arrow to its left exactly when it is initial; above it there is, for every ordered pair of states joined by at least one transition (empty moves included), exactly one arrow, which runs between those states in that direction, and two arrows on one line never overlap. An arrow between different states carries, when there is room, exactly the symbols of those transitions. From both ends of every arrow a line leads down to its states, interrupted by nothing but labels, and nothing else is drawn.",
["inputs"],"all automata with any number of symbols, names of any length, ASCII or not",
"Drawing has no tests; label overflow and byte/character offsets depend on symbol length and script.",
[DR],[("arrow grouping and greedy level placement",DR),("byte-level line editing under unsafe",DR)],["dfa_ascii_art","nfa_ascii_art"])

p("P25","Canvas drawings show the automaton under every option",
"Drawing any DFA or NFA on a drawing surface draws each state exactly once, in order and evenly spaced, with its name and a second circle exactly when it is accepting, and an entry arrow below exactly the initial state. For every ordered pair of states joined by at least one transition there is exactly one connecting line, labelled with exactly the symbols of those transitions and with its arrow heads pointing to the target, and connecting lines at the same height never overlap. The options for sizes, distances, line widths and colours set exactly what they name, and offset and scale options move and scale the whole drawing and change nothing else. The egui and web canvas surfaces of the library show exactly what is drawn on them, nothing of it twice, with names and labels centred, and lines of no width not at all. Drawing a loaded automaton by its handle on the canvas with a given id shows it there and nowhere else; with an unknown handle, an unknown id or an element that is no canvas it answers false and shows nothing.",
["inputs","configurations"],"all automata and drawing options up to a bound",
"Drawing has no tests; nothing observes the calls made on the drawing surface.",
[DR],[("arrow grouping and greedy level placement",DR),("offset/scale wrapper",DR)],["calls on the Drawer given to draw_dfa/draw_nfa","what EguiDrawer and CanvasDrawer show","draw_dfa/draw_nfa of the browser bindings"])

p("P26","No input text can crash loading",
"Loading any text as a DFA, an NFA or a regular expression, through the library or the browser bindings, ends with either an object or an error that can be displayed, never with a panic or another crash. Whatever was loaded can be printed, converted, minimized, trimmed, compared with itself and evaluated without a panic, and repeating the load gives the same outcome.",
["inputs"],"all texts up to a bounded length over a hostile character set (controls, every marker, exotic whitespace, combining and wide characters)",
"No test feeds invalid text to any parser.",
[PM,PF,PR,DP,NP,WA],[("total parsers and validation",PF+", "+PR)],["parser::*","try_into","load_*"])

p("P27","Results do not depend on internal hash randomization",
"Repeating any operation on the same input under different internal hash seeds gives the same verdicts, word lists, state counts and accepted words, and the same automaton up to the names and order of states that the documentation leaves open; for trimming, empty-move removal, NFA union and regex conversion the result is the same automaton up to the order inside a transition set. Error messages are the same too. (The layout of drawings and which of several equivalent states lends its name to a merged one are left open.)",
["schedules","inputs"],"all hash seeds (iteration orders) x inputs up to a bound",
"Each test process runs under one unrecorded random seed and never compares two runs.",
[DM,NM,NE,NW,RX,DP,NP],[("order-insensitive use of hash sets and maps; sorting before keying",DM+", "+NM)],["all operations, run repeatedly under controlled seeds"])

p("P28","The graphical viewer shows the automaton of its text box",
"The viewer starts with an example table in its text box and its drawing below. Whatever has been typed, pasted, deleted and rendered before, pressing Render makes it show exactly the drawing of the DFA whose table is in the text box at that moment, 20 points from the left and 150 from the top, or no drawing when the text is no valid DFA table; what is shown changes at no other time. The text box always holds what was typed, and no text and no order of actions ends the viewer.",
["histories","inputs"],"all sequences of user actions up to a depth, and all texts up to a bound",
"The viewer has no tests; nothing ever runs it.",
["dandy-egui/src/main.rs"],[("text being edited and text being shown are kept apart","dandy-egui/src/main.rs"),("drawing on egui","dandy-draw/src/egui.rs")],["the window of dandy-egui, with a script as its user"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
    jsonschema.validate(d,s)
    if len(d["title"])>80: print(d["id"])
print(len(P))
