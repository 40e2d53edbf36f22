# Writes MANIFEST.json from properties.jsonl and the table below.
import json
AI="abstract interpretation of the Go SSA form (trace-partitioned, opaque operands, text templates)"
TR="Trusts go/types, go/ssa and the models of the standard library; "
T={
"C01":(AI+": error propagation from every operand of every constructor and method",TR+"exact for the analysed operand shapes (every operand alone erroneous, lists of length 1 and 3)."),
"C02":(AI+": an erroneous operand at every step of every builder chain must surface",TR+"chains up to the depth bound, cut where a clause shape repeats; one erroneous operand at a time."),
"C03":(AI+" against reviewed text templates: operand holes and their order",TR+"the reviewed templates are the oracle; list lengths up to 3."),
"C04":(AI+" against a clause model of every builder chain: nothing lost",TR+"chains up to the depth bound, cut where a clause shape repeats."),
"C05":(AI+" against a clause model of every builder chain: order",TR+"chains up to the depth bound, cut where a clause shape repeats."),
"C06":(AI+" against a reviewed table of operators and functions",TR+"the reviewed table is the oracle."),
"C07":(AI+" against reviewed text templates and a clause model: keywords, brackets, separators",TR+"the reviewed templates and the clause model are the oracle."),
"C10":(AI+": every element in every context renders as on its own",TR+"nesting depth as listed in the contexts; every element of the tables."),
"C11":("effect analysis by "+AI+": no write or spare-capacity append to pre-existing memory; re-rendering unchanged",TR+"one or two derivations per element."),
"C12":("effect analysis by "+AI+": builder steps write to nothing older; forks stay independent",TR+"chains up to the depth bound."),
"C13":("effect analysis by "+AI+": rendering writes nothing that outlives it; texts agree",TR+"two further renderings per statement; concurrency is covered through absence of shared writes."),
"C19":(AI+" against a reviewed table of literal conversions and formatting calls",TR+"the standard library's exact formatting (strconv) is trusted."),
"C20":(AI+": fluent operations act on the element itself",TR+"every element of the tables, every fluent operation."),
"C08":(AI+" with one symbolic character per class of the quoting code: every name or text ends inside one quoted token",TR+"character classes are those the code's own comparisons separate; words up to three characters."),
"C09":(AI+" of the quoting routines over all words of classed characters",TR+"character classes are those the code's own comparisons separate; words up to three characters."),
"C14":(AI+": provenance of every element's identity, and pairs of equal elements in one statement",TR+"the counter's atomic add and 64-bit width are trusted never to repeat."),
"C15":(AI+" of every exported call and builder chain on well-formed, erroneous and empty operands: no outcome panics",TR+"operands are opaque values of each accepted type; nil and zero values of library types are covered by C18's rejected calls only."),
"C16":("size-change termination analysis of the SSA call graph, loop-progress analysis of every loop, and abstract interpretation of every exported call to its return","operand data is taken to be acyclic (immutable values built bottom-up); the circle between CompoundCondition.add and its constructor is decided by exploration of every call on it, not by size."),
"C17":(AI+" of pairs of spellings and flags on every builder that offers both: the two outcomes are compared",TR+"the reviewed list of pairs is the oracle for which operations are variants of each other."),
"C18":(AI+" of calls and builder chains with absent, blank or mismatched operands: every outcome is an error",TR+"the list of rejected calls (one absent operand at a time, plus reviewed mismatches) is the oracle."),
"C21":(AI+" of combined conditions; the rendered template is parsed with Cypher's precedence and compared with the combination by a complete three-valued truth table",TR+"combinations of up to 5 (thorough 6) conditions and 3 (4) builder steps; conditions are opaque or of the listed kinds."),
"C25":("reachability over the graph of builder-step types of the type-checked package: no dead ends, no clause lost before RETURN","Trusts go/types; decides what the static types allow, for chains of every length."),
"C22":(AI+" against reviewed scenarios of repeated nodes and aliases",TR+"the reviewed scenarios are the oracle."),
}
NA={
"C23":"needs the grammar, functions and schema of a Neo4j server: nothing in the repository's source states what the server accepts, so no static rule over it can decide this.",
"C24":"cost over run-time sizes: a sound static bound on allocation and copying for every chain length is out of reach of a rule over the source.",
}
import os
if os.path.exists('technique.json'):
    T.update({k:tuple(v) for k,v in json.load(open('technique.json')).items()})
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":T[i][0],"level":"other","level_note":T[i][1]})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":na},open('MANIFEST.json','w'),indent=1)
