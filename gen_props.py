import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("C01","Query elements never swallow the error of an operand",
 "Building or deriving any query element (node, relationship, pattern, expression, condition, literal, list, map, projection, function call, clause) from an operand that carries an error, or calling a method of an element that carries one, yields an element that reports an error. This holds for every operand of every constructor and method, and for every position of a variadic or list operand.",
 ["inputs","programs"],"every exported element constructor or method, every operand position that can carry an error, every position in a list operand",
 "The tests build erroneous operands for a handful of constructors; the property quantifies over about 300 constructor/operand pairs and all list positions.",
 ["cypher.go","functions.go","function_invocation.go","comparison.go","operation.go","node.go","relationship.go","relationship_details.go","list_comprehension.go","map_projection.go","match.go","return.go"],
 [("error checks at the head of each constructor","*Create/*Create1 functions of every element file"),("error accessor consulted by the next constructor","GetError methods")])
p("C02","A failed builder step is never forgotten",
 "Once a step of a fluent statement chain received an operand carrying an error, or itself failed, every continuation of the chain keeps that failure. Finishing the chain then reports an error, from building the statement or at the latest from rendering it, and never yields query text with the failed part silently left out.",
 ["histories","inputs","fault_sequences"],"every builder state carrying a failure, every continuation method, every operand position of every builder step",
 "Chains can fail at any step and continue with any other; tests exercise about five failing chains.",
 ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","default_statement_with_return_builder.go","in_query_call_builder.go","procedure_call.go","default_ongoing_unwind.go","cypher_renderer.go"],
 [("error field carried by every builder","err fields of the builder structs"),("final report","Build methods, CypherRenderer.Render")])
p("C03","Every operand of an element is rendered once and in the given order",
 "An element that was constructed without error renders each of its operands, including every entry of a list operand, exactly once and in the order in which they were passed. Optional operands that are present are rendered and optional operands that are absent leave no trace.",
 ["inputs","programs"],"every element constructor, every operand, every presence combination of the optional operands, list lengths",
 "Presence combinations and list positions multiply; tests render one or two combinations of each element.",
 ["visitable.go","function_invocation.go","comparison.go","operation.go","case.go","relationship_chain.go","map_projection.go","procedure_call.go","return.go","with.go","match.go"],
 [("child traversal","accept methods"),("presence flag that gates optional children","notNil fields, VisitIfNotNull")])
p("C04","Statement builders lose no clause and no operand",
 "Every clause started in a fluent statement chain, and every pattern, expression, condition, sort item, skip, limit, argument or yielded item handed to it, is contained in the statement that the chain builds. This holds whichever clause follows next and whichever way the chain ends.",
 ["histories","programs"],"every reachable builder state times every continuation method",
 "The order and combination of steps is unbounded; a test fixes one chain, and only the common successions are sampled.",
 ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","default_statement_with_return_builder.go","in_query_call_builder.go","order_builder.go","condition_builder.go","updating_clause_builder.go"],
 [("pending clause is closed into the clause list before the next one starts","CloseCurrentOngoing*, addUpdatingClause, AddWith"),("assembly","BuildImpl, BuildListOfVisitable")])
p("C05","Clauses are emitted in the order of the builder calls",
 "The clauses of a built statement, and the operands inside a clause, appear in the order in which the chain supplied them; a step only ever appends to or completes the statement built so far and never moves, repeats or removes an earlier clause.",
 ["histories","programs"],"every reachable builder state times every continuation method",
 "Order depends on which clause is still pending when the next begins; tests sample few pending-state/next-step pairs.",
 ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","in_query_call_builder.go","default_ongoing_unwind.go","multi_part_query.go","single_part_query.go"],
 [("closing pending clauses first","CloseCurrentOngoing*"),("assembly order","BuildListOfVisitable, MultiPartQuery/SinglePartQuery accept")])
p("C06","Operators and functions render as what their name says",
 "Each comparison, arithmetic, boolean and list operator method, each predicate and each function helper renders exactly the Cypher operator or function it stands for, with DISTINCT where and only where the distinct variant was asked for, and with its operands on the correct side and in the given order.",
 ["programs","inputs"],"every exported operator and function helper, all operands",
 "More than 150 helpers; many are never rendered by a test.",
 ["operator.go","expression_container.go","condition_container.go","conditions.go","operations.go","functions.go","built_in_function.go","predicates.go","list_predicate.go"],
 [("operator table","operator.go"),("function table","built_in_function.go"),("per-method choice of table entry","functions.go, expression_container.go")])
p("C07","Clauses and elements are written with the correct Cypher syntax",
 "Every clause and element is rendered with its own keywords, separators and brackets: every opened parenthesis, bracket or brace is closed in the same element for every combination of optional parts, and keywords stay separated from their operands.",
 ["inputs","programs","configurations"],"every element kind, every presence combination of its optional parts and flags",
 "Bracket and keyword emission is split over opening and closing code guarded by conditions; tests cover a few valuations of those conditions.",
 ["relationship_details.go","relationship_length.go","node.go","with.go","return.go","match.go","merge_action.go","delete.go","case.go","pattern_comprehension.go","list_comprehension.go","subquery.go","map_projection.go"],
 [("opening text","enter methods"),("closing text","leave methods")])
p("C08","Caller-supplied names and text cannot break out of their token",
 "Whatever characters a caller passes as label, relationship type, variable name, alias, property or map key, parameter name or string literal, they come out inside one quoted or escaped token of that kind, or the call reports an error; text is only passed through verbatim where the API is documented to accept raw Cypher.",
 ["inputs"],"all strings, every API entry that accepts a name or text, every place where it is written",
 "Quantifies over all strings and over every path from an argument to the output; tests use plain identifiers nearly everywhere.",
 ["cypher_renderer.go","node.go","relationship_type.go","alias_expression.go","property_lookup.go","key_value_map_entry.go","string_literal.go","unwind.go","parameter.go","procedure_name.go","name_space.go"],
 [("quoting at the point of output","escapeName, EscapeIfNecessary, escapeStringLiteral, CypherRenderer.resolve")])
p("C09","The quoting routines neutralise every special character",
 "Quoting a name with at least one non-blank character doubles every back-tick and wraps the name in back-ticks unless it is a plain identifier (a letter or underscore followed by letters, digits or underscores); quoting string text puts a backslash before every quote and every backslash and changes nothing else.",
 ["inputs"],"all strings",
 "A finite sample of strings cannot show that no character is missed; tests try a handful.",
 ["cypher_renderer.go","string_literal.go"],
 [("name quoting","escapeName, EscapeIfNecessary, isIdentifier"),("text quoting","escapeStringLiteral, RESERVED_CHARS, CHARACTER_MAP")])
p("C10","List separators and render state are balanced",
 "Consecutive entries of a rendered list are separated by exactly one comma and lists never leak separators into neighbouring or nested output. All the bookkeeping the renderer does on the way into an element is undone on the way out, whether or not the content of the element was skipped.",
 ["programs","histories"],"every nesting of elements, every interleaving of lists and non-lists, named elements and aliases",
 "Nesting depth and history are unbounded; tests sample shallow trees.",
 ["cypher_renderer.go","visitable_list.go","list_literal.go","expression_list.go","yield_items.go","map_expression.go","pattern.go","order.go","arguments.go"],
 [("push/pop, level and separator handling","CypherRenderer.enter, leave, PreEnter, postLeave"),("paired notifications","accept methods")])
p("C11","Deriving from a query element never changes it",
 "Query elements are values: no method of a node, relationship, relationship chain, expression, condition, map, projection or other element changes how the receiver, an operand, or any element sharing parts with them renders. Elements can therefore be reused and refined independently in any order.",
 ["histories","schedules"],"every element, every sequence of derivations from shared elements, also from several goroutines",
 "Aliasing shows only when two derivations of the same element are both used later; tests derive once.",
 ["relationship_chain.go","compound_condition.go","map_expression.go","case.go","node.go","name_path.go"],
 [("value receivers and copies","element methods"),("fresh backing storage for grown lists","append sites in element methods")])
p("C12","Builders can be forked and built repeatedly",
 "Continuing an unfinished statement chain in two different ways gives two independent statements, and building the same chain twice gives the same statement twice; no continuation or build has an effect that another holder of the same intermediate step can observe.",
 ["histories","schedules"],"every intermediate builder, every pair of continuations, any number of builds",
 "Needs two uses of one intermediate step; tests use each step once.",
 ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","default_statement_with_return_builder.go","in_query_call_builder.go","procedure_call.go","default_ongoing_unwind.go","order_builder.go","condition_builder.go"],
 [("value receivers of the builders","builder methods"),("shared default builder behind a pointer","defaultBuilder fields")])
p("C13","Rendering is read-only, repeatable and reentrant",
 "Rendering a statement changes neither the statement nor any state that outlives the call: rendering the same statement again, with the same or another renderer, or from several goroutines at once, gives the same text.",
 ["schedules","histories"],"every statement, any number and interleaving of render calls",
 "Tests render each statement once with a fresh renderer in one goroutine.",
 ["cypher_renderer.go","visitable.go"],
 [("per-call state","CypherRenderer.Render"),("side-effect free traversal","accept, enter, leave methods")])
p("C14","Every element has an identity of its own",
 "Two elements that were constructed or derived separately are never mistaken for one another while rendering, however many elements exist and whatever the memory manager does; only the reuse of the very same element counts as a repetition.",
 ["inputs","histories","schedules"],"every constructor, every pair of live or dead elements, every garbage-collection schedule",
 "Mix-ups depend on address reuse after garbage collection and on construction history; test runs show them at random, if at all.",
 ["support.go","node.go","alias_expression.go","symbolic_name.go","relationship.go","cypher_renderer.go"],
 [("identity assigned at construction","getAddress and the key field set by each constructor"),("identity consulted","CypherRenderer enter/leave, Node enter")])
p("C15","No API call panics on well-formed or erroneous operands",
 "Calling any exported function or method with well-formed arguments, with arguments or receivers that carry an error, or with empty lists and strings, never panics; invalid use is reported as an error.",
 ["inputs","histories"],"every exported function and method, well-formed, erroneous and empty operands",
 "Tests call few functions with erroneous operands and almost none on erroneous receivers.",
 ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","case.go","predicates.go","existential_subquery.go","excluded_pattern.go","procedure_name.go","condition_container.go"],
 [("guards before dereference, indexing and type assertion","throughout"),("explicit panics","panic calls")])
p("C16","Every API call terminates",
 "No exported function or method recurses without making progress: recursion happens only on a strictly smaller part of the operand, and every loop advances towards the end of a finite collection.",
 ["inputs","programs"],"every exported function and method, all operands",
 "A self-call on a rarely taken error path is invisible until that path is taken.",
 ["string_literal.go","raw_string_literal.go","multi_part_query.go","parameter.go","compound_condition.go","expression.go"],
 [("structural recursion only","call graph of the package")])
p("C17","Overloads and variants of one operation agree",
 "The variants of one operation that differ only in how operands are spelled (strings, named elements, expressions, patterns, symbolic names, raw values) or in a flag such as DISTINCT, OPTIONAL or DETACH produce the same result for equivalent operands apart from that flag, on every builder that offers them.",
 ["programs","inputs"],"every overload family on every builder and element",
 "There are over a hundred overloads and tests use the one that is convenient.",
 ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","in_query_call_builder.go","functions.go","condition_container.go","cypher.go"],
 [("delegation to the common implementation","*ByString, *ByNamed, *Distinct*, *Pattern methods")])
p("C18","Missing or invalid arguments are rejected",
 "Arguments that cannot be rendered meaningfully (empty names, labels, keys and aliases, absent required operands, unsupported or mismatched operators, odd key/value lists, duplicate map keys, distinct on non-aggregates, mixed union kinds, merge actions without merge) are reported as an error by the call that receives them or by the built statement.",
 ["inputs"],"every constructor with a documented requirement, every operand position",
 "Each validation needs its own negative test; most have none.",
 ["symbolic_name.go","parameter.go","node.go","property.go","comparison.go","compound_condition.go","operation.go","map_expression.go","function_invocation.go","union_query.go","default_statement_builder.go"],
 [("validation at the head of constructors","*Create functions")])
p("C19","Literal values are rendered exactly",
 "A number literal renders to digits that denote exactly the given number for every supported numeric type, and an integer renders as an integer literal (never with an exponent or a fraction); boolean and null literals render their keyword, and converting a host value to a literal picks the literal kind of the value's type for every supported type.",
 ["inputs"],"all values of all supported host types",
 "Tests use small integers; precision loss and missed types show only on others.",
 ["number_literal.go","bool_literal.go","null_literal.go","cypher.go","list_literal.go"],
 [("number formatting","NumberLiteral.AsString"),("type dispatch","LiteralOf")])
p("C20","An element and its fluent handle denote the same expression",
 "Applying a fluent operation to an element (comparing, aliasing, adding, negating, sorting and so on) operates on exactly that element as it stands, complete with all its parts, never on an earlier, emptier or different version of it.",
 ["inputs","programs"],"every element kind that offers fluent operations, every way to construct or derive it",
 "The fluent handle is captured during construction; a capture taken too early differs only when the fluent operation is used on that kind of element.",
 ["expression_container.go","condition_container.go","list_literal.go","compound_condition.go","property.go","function_invocation.go"],
 [("handle captured at the end of construction","ExpressionWrap / ConditionWrap calls")])
p("C21","Combining conditions preserves their grouping",
 "Joining conditions with and, or, xor and not, directly or through builders, yields a condition whose rendered text, read with Cypher's operator precedence, has the same truth value as the combination the caller wrote, for any nesting.",
 ["programs","inputs"],"every nesting of and/or/xor/not",
 "Nesting combinations are unbounded; tests sample about ten.",
 ["compound_condition.go","condition_container.go","condition_builder.go","comparison.go","nested_expression.go"],
 [("flattening and nesting of compound conditions","CompoundCondition.add, accept")])
p("C22","Repeated named nodes and aliases are abbreviated, first uses are not",
 "Within one rendered statement the first occurrence of a named node shows its labels and properties and every later occurrence of the same node only its name; an aliased expression is written in full with its alias where it is introduced and by its alias afterwards; within the list that introduces an alias the expression itself is not replaced by it, and of several aliases the one introduced last stands for the expression. Anonymous nodes are always written in full.",
 ["histories","programs"],"every statement, every pair of occurrences of the same element",
 "Depends on the whole render history; tests cover a few repetitions.",
 ["node.go","cypher_renderer.go","alias_expression.go"],
 [("occurrence tracking","Node.enter/leave, CypherRenderer.leave, getAliasedIfSeen")])
p("C23","Generated text is accepted and understood by a Neo4j server",
 "Every statement that builds without error is a syntactically and semantically valid Cypher query for the server version the library targets.",
 ["programs","inputs"],"every statement the API can build",
 "Needs the server's grammar and schema.",
 ["cypher_renderer.go"],[("whole library","root package")])
p("C24","Building and rendering cost stays proportional to the statement",
 "The time and memory needed to build and render a statement grow no faster than linearly with its size.",
 ["inputs"],"statements of every size","Tests use tiny statements.",
 ["cypher_renderer.go","default_statement_builder.go"],[("slice growth and traversal","builders, renderer")])
p("C25","Every builder step leads on to a finished statement or element",
 "Whatever sequence of steps a caller has taken, the type of the value in hand always allows going on to a finished statement or element, and until RETURN (or YIELD of a procedure call) has ended the clauses no step takes away the clauses that could still follow: adding WHERE, ORDER BY, SKIP, LIMIT or an update never leads into a dead end.",
 ["programs"],"every step of every builder, every sequence of steps the static types allow",
 "What can follow is decided by the type each step returns; a step that returns too narrow a type compiles, and only callers who want to go on from exactly there notice.",
 ["statement_builder.go","default_statement_with_with_builder.go","procedure_call.go","pattern_comprehension.go","list_comprehension.go"],
 [("the interfaces of the builder steps","ExposesLimitAndOngoingReadingAndWith, OngoingReadingAndWith, BuildableStatement, TerminalExposesOrderBy")])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
