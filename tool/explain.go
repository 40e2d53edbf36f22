package main

// What each check analyses and the rule it applies, for the evidence files.
const how = " Outcomes are derived by abstract interpretation of the package's SSA form (go/ssa, rebuilt from /repo on every run): calls, branches, the heap and strings are interpreted over a domain of opaque operands and text templates with holes, every feasible branch is followed, nothing is executed and no solver is used. A construct that cannot be resolved counts as a violation."

var explanations = map[string]string{
	"C01": "Every exported constructor and method, times every operand that can carry an error (alone, and in each position of a list), and every element of the tables with each operand erroneous. Rule: no feasible outcome is a value without an error.",
	"C02": "Every statement chain up to the depth bound that the static builder types allow, cut where the chain's last clauses repeat a shape already seen, times every way to finish it, times every operand that can carry an error, with exactly that operand erroneous. Rule: every outcome of building or rendering is an error.",
	"C03": "Client expressions over the exported element constructors and methods, with optional operands present and absent and lists of several lengths, each with the reviewed text template it must render. Rule: the rendered template has the same operand holes in the same order as the reviewed one.",
	"C04": "Every statement chain up to the depth bound times every way to finish it, next to a model of the clauses the steps describe. Rule: the built text contains every clause keyword and every operand hole of the model, and building does not fail or give nil.",
	"C05": "Every statement chain up to the depth bound times every way to finish it, next to a model of the clauses the steps describe. Rule: clause keywords and operand holes come in the model's order, none repeated.",
	"C06": "Every operator method, predicate and function helper of the exported API, with opaque operands, each with the reviewed outcome (operator or function name, DISTINCT, operand order). Rule: the derived outcome set equals the reviewed one.",
	"C07": "Client expressions over every element and clause, and every statement chain up to the depth bound. Rule: keywords, brackets and separators of the rendered template equal the reviewed ones (white space that separates no two words is ignored).",
	"C10": "Every element of the tables placed into every context it is assignable to (lists, maps, cases, comprehensions, patterns, projections, order, subqueries, nested lists). Rule: the rendered template equals the context's template with the element's own template in place of the hole, so neither a separator nor a piece of render state is lost or leaked.",
	"C11": "Every exported constructor and method, once on arbitrary operands and once on well-formed ones, and every method of every element of the tables. Rules: no write and no append into spare capacity reaches memory that existed before the call; operands and receiver render the same before and after; two derivations from one element do not disturb each other.",
	"C12": "Every statement chain prefix up to the depth bound, each of its continuations and finishes, then the prefix finished again and the first continuation rendered again. Rules: no step writes to, or appends into spare capacity of, anything that existed before it; the prefix and the first continuation still build what their steps describe.",
	"C13": "Every element of the tables and every finished chain up to the depth bound, rendered once, again with the same renderer, and again with another. Rules: no write reaches the element, a package variable or the renderer's surroundings; the texts are the same.",
	"C15": "Every exported constructor and method on operands of its types, in turn erroneous, empty or repeated up to three times; every method of every element of the tables, well-formed and with each of its operands erroneous; every chain of a builder and sub-builder up to the depth bound with each operand erroneous or empty; and every call of the reviewed list that has to be rejected. Rule: no outcome is a panic.",
	"C16": "The calls of C15, followed until they return, and the whole call graph. Rules: no call recurses on operands that do not get smaller (ends); every loop of the package, whatever the size of its data, is a range, a counter moving towards a bound the loop does not move, or consumes its data (loop); on every circle of calls some operand is replaced by a proper part of itself, by size-change termination over the call graph with dynamic types, or else every call on the circle is among those followed to their return (recursion).",
	"C17": "Reviewed pairs of spellings (strings, named elements, symbolic names, patterns and conditions as operands; one step or two; functions and constructors with siblings) and of flags (DISTINCT, OPTIONAL, DETACH, ALL, direction), each pair of methods tried on every builder, sub-builder and element that offers both, after every shape of clauses up to the depth bound. Rule: both outcomes are the same, apart from the flag's keyword in its place.",
	"C18": "Client expressions for every exported constructor, method and builder step with each operand in turn left out (nil, no entry, empty or blank text, zero value), reviewed mismatches (operators, odd key and value lists, duplicate keys, distinct on non-aggregates, mixed unions, merge actions without merge), and every statement chain up to the depth bound that the clause model calls invalid. Rule: every outcome of the call or of rendering what it built is an error.",
	"C21": "Every combination of up to five (thorough: six) conditions with AND, OR, XOR and NOT in every nesting, in the three ways the API offers (methods, constructor, chained containers), combinations of comparisons, patterns, labels, constants and the empty condition, and every sequence of Where, And and Or steps of MATCH, WITH, YIELD and pattern comprehensions over such combinations. Rule: the rendered template, parsed with Cypher's precedence, has the caller's truth value on every row of the three-valued truth table.",
	"C19": "Number, boolean, null and string literals and the conversion of every supported host type, with opaque host values. Rule: the derived outcome (literal kind, exact formatting routine and its arguments) equals the reviewed one.",
	"C20": "Every element of the tables times every fluent operation its type offers. Rule: the text of the result is the operation applied to the text of the element itself.",
	"C25": "Every exported function and method whose result is a builder step, as a graph over the static result types of the type-checked package. Rules: from every step type a method giving a finished statement or element can be reached (leads-on); a step of a statement builder taken before RETURN keeps every clause reachable that was reachable before it (keeps-clauses). The graph covers chains of every length.",
	"C22": "Reviewed scenarios with a node, an aliased expression or several of them occurring more than once in one statement. Rule: the rendered template equals the reviewed one.",
	"C08": "Every exported constructor and method that takes a name or text, given words made of one representative character per class the quoting code tells apart, alone and in every position of two and three character words, plus the reviewed quoting kinds of every table entry and every statement chain. Rule: the word comes out inside one quoted token of the expected kind, or the call reports an error; verbatim only where the API is documented to accept raw Cypher.",
	"C09": "The quoting routine behind every place that writes a name or text, given words of up to three characters drawn from the character classes that its comparisons separate (letters, digits, underscore, back-tick, both quotes, backslash, white space, other). Rule: the result is the word, quoted and escaped as the property states.",
	"C14": "Every element of the tables, made twice from the same operands, and everything its methods derive from it. Rules: the key by which the renderer knows it is taken from a source that never repeats (a counter or memory that is kept alive), so the two keys differ; a derived element that renders differently has a key of its own; no element shares the key of an element it holds; with both elements in one statement each is written as what it is.",
}
