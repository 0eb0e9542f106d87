"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    return d

S = "snuba_sdk/"
PROPS = [
P("C01", "A serialized SnQL query denotes exactly the query that was built",
  "For every valid Query, serialize() (and str()) returns the SnQL text in which every clause that was set appears exactly once, in the fixed order MATCH, SELECT, BY, ARRAY JOIN, WHERE, HAVING, ORDER BY, LIMIT BY, LIMIT, OFFSET, GRANULARITY, TOTALS, and no other clause appears. Within a clause every expression, alias, function parameter and initializer, lambda, operator, boolean grouping, sort direction, sampling rate and number is rendered exactly as built, in the order built, with the grouping that keeps its meaning. Nothing the caller supplied is lost, duplicated, reordered or altered, at any nesting depth or size.",
  ["inputs", "programs"], "every valid Query: every combination of clauses and every expression tree (columns, aliased expressions, functions, curried functions, lambdas, identifiers, arrays, tuples, nested conditions, subqueries, joins, storages)",
  "Tests compare a few dozen hand-written queries; the space of clause combinations and nested expressions is unbounded, and each test fixes one shape.",
  [S+"query.py", S+"query_visitors.py", S+"visitors.py"],
  [("Printer", S+"query_visitors.py"), ("Translation", S+"visitors.py"), ("Query.serialize", S+"query.py")],
  ["Query.serialize()", "str(Query)"]),
P("C02", "Literal values survive SnQL serialization and can never break out",
  "Every literal placed in a query (None, booleans, integers, floats, strings and UTF-8 bytes with any characters including quotes, backslashes and newlines, dates, naive and timezone-aware datetimes, and arrays or tuples nesting these) is rendered as a single SnQL literal token that reads back as exactly that value. Timezone-aware datetimes are rendered as the same instant in naive UTC, naive ones unchanged, with microseconds kept. No literal's content can end its own quoting, contain a raw newline, or otherwise change the structure of the query around it.",
  ["inputs"], "every literal value of every supported type, in every position a literal may take (condition right-hand side, function parameter, initializer, nested in arrays and tuples)",
  "Tests try a handful of strings and two or three datetimes; escaping, offset arithmetic and nesting must hold for every string and every instant.",
  [S+"visitors.py", S+"expressions.py"],
  [("Translation._stringify_scalar", S+"visitors.py"), ("is_scalar", S+"expressions.py")],
  ["Query.serialize()", "Query.print()"]),
P("C03", "Rewriting OR of equalities to IN never changes what a query selects",
  "When a query is serialized, a top-level OR in the WHERE clause (or in the top-level filters of a metrics query) may be rewritten to an IN condition only if every branch is an equality on one and the same expression, and the rewritten condition lists exactly the compared values in order. Every other condition is serialized as built, and for any row the serialized conditions evaluate to the same result as the conditions the caller supplied. HAVING, nested conditions and inner objects are left as built.",
  ["inputs", "programs"], "every list of conditions and boolean conditions (any operators, operand expressions including functions that differ only in alias, type or entity, any nesting and any number of branches)",
  "Tests cover a few OR shapes; near-misses (same text but different expression, mixed operators, aliases, booleans versus integers, nested groups) are unbounded.",
  [S+"query_optimizers/or_optimizer.py", S+"query.py", S+"metrics_query.py"],
  [("OrOptimizer.optimize", S+"query_optimizers/or_optimizer.py"), ("Query._optimize", S+"query.py"), ("MetricsQuery._optimize", S+"metrics_query.py")],
  ["Query.serialize()", "MetricsQuery.serialize()"]),
P("C04", "Queries are persistent values: no operation changes an existing object",
  "Every set_* method on Query, MetricsQuery, Timeseries, Formula, Metric and MetricsScope returns a new object equal to the original except for the one field that was set (set_aggregate also sets the parameters), and leaves the original and every other existing object unchanged. Validating, serializing, printing, converting to str or wrapping an object in a Request never changes it or anything reachable from it. This holds for any sequence of such calls on any set of objects that share parts, including calls that raise.",
  ["histories"], "every sequence of constructor, set_*, validate, serialize, print and str calls over a shared set of objects",
  "Tests call single setters or chains and look at the final result only; they never check that earlier objects in a history are untouched.",
  [S+"query.py", S+"metrics_query.py", S+"timeseries.py", S+"formula.py", S+"query_optimizers/or_optimizer.py"],
  [("Query._replace", S+"query.py"), ("MetricsQuery._replace", S+"metrics_query.py"), ("Timeseries.set_*", S+"timeseries.py"), ("Formula.set_*", S+"formula.py")],
  ["public attributes of every live object after every call"],
  [("objects", "all query objects created so far in the history", "caller's heap")]),
P("C05", "Only well-formed queries are ever serialized",
  "serialize(), str(), print() and validate() on a Query raise unless it has at least one selected expression, uses totals only together with a non-empty group by, and all of its parts and its inner query are valid; a query that satisfies these is never rejected. A Query can only be constructed or re-targeted on an entity, storage, join or valid inner query, and each set_* method accepts exactly values of its clause's type (non-empty list for select and array join, list for the other list clauses, in-range numbers for limit, offset and granularity, a boolean for totals) and otherwise raises without producing a query.",
  ["inputs", "histories"], "every Query reachable by constructor arguments and set_* calls, complete or not, valid or not",
  "Tests list a few invalid queries; acceptance and rejection must be exact over all combinations of clauses and argument types.",
  [S+"query.py", S+"query_visitors.py"],
  [("Validator", S+"query_visitors.py"), ("Query.set_*", S+"query.py"), ("Query.__post_init__", S+"query.py")],
  ["Query(...)", "Query.set_*", "Query.validate()", "Query.serialize()", "Query.print()"]),
P("C06", "Every column reference is resolved against the MATCH clause",
  "A query is accepted only if every column it mentions - in any clause and at any depth, inside functions, curried initializers, lambdas, aliased expressions, boolean conditions, arrays and tuples - resolves against the match: with an inner query, to a selected column name or function alias of it; in a join, to a column qualified by an entity whose alias and name are in the join; with an entity or storage that has a data model, to a column of that model (the part before '[' for subscripted columns). A query all of whose columns resolve is not rejected for its columns, and the same data-model check applies to a column constructed with its own entity.",
  ["inputs", "programs"], "every placement of every column in every clause and nesting, for every kind of match",
  "Tests place unknown columns in a few positions; a reference missed in one clause or nesting kind goes unnoticed.",
  [S+"query_validation.py", S+"visitors.py", S+"query_visitors.py", S+"column.py"],
  [("validate_match", S+"query_validation.py"), ("ExpressionSearcher", S+"query_visitors.py"), ("ExpressionFinder", S+"visitors.py"), ("Column.validate_data_model", S+"column.py")],
  ["Query.validate()", "Query.serialize()", "Column(...)"]),
P("C07", "The required-column check accepts exactly the constrained queries",
  "validate_required_columns accepts a query exactly if, for every entity with a data model that it ultimately reads from (the entity, each entity of a join, or those of the innermost query), the WHERE conditions - taken at top level or inside any nesting of ANDs, never inside an OR - contain an = or IN condition on each required column and both a >= and a < condition on the required time column. In a join only a condition on a column that is unqualified or qualified with that entity's alias counts for that entity. Everything else raises RequiredColumnError.",
  ["inputs", "programs"], "every condition tree and every data model, for entity, join and nested-subquery matches",
  "Tests use a handful of condition lists; the AND/OR nesting, operator and alias combinations are unbounded.",
  [S+"query_validation.py", S+"conditions.py", S+"schema.py"],
  [("validate_required_columns", S+"query_validation.py"), ("get_first_level_and_conditions", S+"conditions.py")],
  ["snuba_sdk.query_validation.validate_required_columns(query)"]),
P("C08", "Expressions exist only if well-formed, and every well-formed one does",
  "Constructing any expression (Column, Function, CurriedFunction, Identifier, Lambda, AliasedExpression, Entity, Storage, Relationship, Join, Condition, BooleanCondition, And, Or, OrderBy, LimitBy, Limit, Offset, Granularity, Totals, Extrapolate) succeeds exactly if its fields have the documented types, formats and ranges, and otherwise raises the SDK's error for it. The constructed object holds exactly the values given, and a subscripted column exposes its subscriptable and key. In particular names, aliases and identifiers are matched in full, limits are 1 to 10,000, offsets are not negative, boolean conditions have at least two members, unary operators take no right-hand side, and a join never gives one alias to two entities.",
  ["inputs"], "every combination of argument values and types for every expression constructor",
  "Tests try a few good and bad values per class; the accepted language is an infinite set with boundaries at every character class and range.",
  [S+"column.py", S+"function.py", S+"conditions.py", S+"expressions.py", S+"entity.py", S+"storage.py", S+"orderby.py", S+"relationships.py", S+"aliased_expression.py"],
  [("Expression.__post_init__/validate", S+"expressions.py"), ("regular expressions for names", S+"column.py, function.py, entity.py")],
  ["the constructors' outcome and the public attributes of the constructed object"]),
P("C09", "Names are qualified with entity aliases exactly inside join queries",
  "In the serialized or printed text of a query whose match is a join, every column carrying an entity is written alias.column, every entity is written (alias: name) and every relationship is written in order with its name. In a query whose match is an entity, storage or inner query no name is qualified, and each inner query decides this for itself independently of the query around it. A join or subquery serialized earlier, in the same or another query, never influences this.",
  ["inputs", "programs", "histories"], "every nesting of joins, subqueries, entities and storages, and every position of a qualified column",
  "Tests have a few joins and one or two nested ones; the state switched while printing must be right for every nesting and order.",
  [S+"query_visitors.py", S+"visitors.py", S+"relationships.py"],
  [("entity_aliases", S+"visitors.py"), ("Printer.visit/_visit_match", S+"query_visitors.py")],
  ["Query.serialize()", "Query.print()"]),
P("C10", "Printing a metrics query as MQL and parsing it gives the same query",
  "For every Timeseries or Formula made of constructs that MQL has (metric by MRI or public name, aggregate with parameters, filters using =, !=, IN, NOT IN, LIKE, NOT LIKE combined with AND and OR, group by columns, and formulas with arithmetic, unary minus, functions and curried functions), parsing the MQL text that serialization produces yields an equivalent query. Equivalent means the same metrics, aggregates and parameters, arithmetic structure, group by and filter meaning. Parsing, printing and parsing again is likewise stable for every MQL string that is accepted.",
  ["inputs", "programs"], "every expressible Timeseries and Formula tree and every accepted MQL string (string values without backslash or newline: see the known finding)",
  "Tests parse and print separate fixed examples and never compose the two over arbitrary trees.",
  [S+"mql/mql.py", S+"metrics_visitors.py", S+"visitors.py"],
  [("parse_mql", S+"mql/mql.py"), ("TimeseriesMQLPrinter, FormulaMQLPrinter", S+"metrics_visitors.py")],
  ["parse_mql(...)", "MetricsQuery.serialize()['mql']"]),
P("C11", "An MQL string parses to its grammatical meaning or is rejected",
  "parse_mql returns, for every string in the MQL language, exactly the Timeseries or Formula the grammar assigns to it: * and / bind tighter than + and -, both left-associative, unary minus binds tightest, AND binds tighter than OR, a comma or juxtaposition of conditions means AND, ! negates the condition, * makes a LIKE, [..] makes an IN, and filters and group bys attach to the expression they follow, ahead of the ones already there. Every other string raises an exception; no input is silently truncated, partially parsed or repaired.",
  ["inputs", "programs"], "every string",
  "Tests hold about two hundred fixed strings; precedence, associativity, attachment and rejection must hold for all strings.",
  [S+"mql/mql.py"],
  [("MQL_GRAMMAR", S+"mql/mql.py"), ("MQLVisitor", S+"mql/mql.py")],
  ["parse_mql(...)", "MetricsQuery(query=<str>).serialize()"]),
P("C12", "A serialized metrics query carries the complete MQL text and context",
  "For every valid MetricsQuery, serialize() returns the MQL text that expresses its query exactly (metric, aggregate, parameters, every filter with its operator and value, every group by, formula structure), together with a context holding the start and end as ISO timestamps, the rollup's orderby, granularity, interval and with_totals, the scope's organizations, projects and use case, and the limit, offset, extrapolate and indexer mappings, each exactly as given and null when not given. A filter that MQL cannot express raises instead of being printed as something else. str() and print() give JSON with the same content apart from the OR rewriting.",
  ["inputs", "programs"], "every valid MetricsQuery (Timeseries, Formula or MQL string; every rollup, scope and option combination)",
  "Tests compare a few full dictionaries; the combinations of filter operators, value types and options are not enumerated.",
  [S+"mql_visitor.py", S+"metrics_visitors.py", S+"metrics_query.py", S+"mql_context.py", S+"visitors.py"],
  [("MQLPrinter", S+"mql_visitor.py"), ("TimeseriesMQLPrinter, FormulaMQLPrinter, RollupMQLPrinter, ScopeMQLPrinter", S+"metrics_visitors.py")],
  ["MetricsQuery.serialize()", "MetricsQuery.print()", "str(MetricsQuery)"]),
P("C13", "Only well-formed metrics queries and their parts are accepted",
  "A MetricsQuery validates, serializes and prints only if it has a query that is a valid Timeseries, Formula or MQL string, datetimes for start and end, a rollup with an allowed granularity, a scope, and correctly typed options; Metric, Timeseries, Formula, Rollup and MetricsScope accept exactly the documented field types, ranges and combinations (a rollup needs an interval or totals, an interval of at least 10 seconds and not below the granularity, and no orderby with an interval). A Formula is valid only if it has parameters of the allowed types, contains at least one Timeseries at some depth, and all group bys set anywhere inside it agree. Everything satisfying this is accepted and everything else raises the SDK's error.",
  ["inputs", "programs"], "every combination of field values for each metrics class and every Formula tree",
  "Tests try single bad fields; cross-field rules and formula trees of any depth are not enumerated.",
  [S+"timeseries.py", S+"formula.py", S+"metrics_query.py", S+"metrics_query_visitors.py"],
  [("Rollup.validate, Timeseries.validate, Metric.validate, MetricsScope.validate", S+"timeseries.py"), ("Formula.validate", S+"formula.py"), ("Validator", S+"metrics_query_visitors.py")],
  ["constructors, set_*, validate(), serialize()"]),
P("C14", "A request carries its query, identity and flags unchanged, or is refused",
  "For every valid Request, to_dict(), serialize(), str() and print() contain exactly the flags that were set (true or false), the serialized query, the dataset (not for delete queries), app_id, tenant_ids and parent_api as given, plus the MQL context exactly for metrics queries; the JSON text parses back to the same content. A request whose dataset, app_id, parent_api, tenant_ids, flags or query is not valid raises and yields nothing.",
  ["inputs"], "every Request over every kind of query, every flag combination and every field value",
  "Tests fix a few requests; the flag combinations, odd field values and query kinds are not enumerated together.",
  [S+"request.py"],
  [("Request.validate, Request.to_dict", S+"request.py"), ("Flags.to_dict", S+"request.py")],
  ["Request.to_dict()", "Request.serialize()", "Request.print()", "str(Request)"]),
P("C15", "Legacy JSON bodies convert to the equivalent SnQL request, repeatably",
  "json_to_snql turns a legacy body into a Request whose query has exactly the body's selections, aggregations, group by, array join, extension conditions (organization, project, time range on the entity's time column), conditions, having, order by, limit by, limit, offset, granularity, totals and sample, where nested groups mean OR, functions nest, quoted strings are literals, date strings become datetimes except for tags and release, and a leading '-' means descending; its flags, dataset, app id and tenant ids come from the body. The conversion never modifies the body, and converting the same body again gives an equal request.",
  ["inputs", "histories"], "every legacy body over the documented keys, and repeated conversions of one body",
  "Tests convert fixed bodies once each and compare text; they cannot see input mutation or untested combinations.",
  [S+"legacy.py", S+"entity.py"],
  [("json_to_snql", S+"legacy.py"), ("parse_exp, parse_condition, parse_scalar", S+"legacy.py")],
  ["json_to_snql(body, entity)", "Request.serialize()"]),
P("C16", "Results never depend on other calls, earlier or concurrent",
  "The outcome of parsing, validating, serializing, printing or converting an object is a function of that object (or string) alone. It is the same whatever operations ran before in the process, including ones that raised part-way, and whatever operations run concurrently in other threads at any interleaving. In particular operations on one object from several threads and on different objects at the same time give the results they give alone.",
  ["schedules", "histories", "fault_sequences"], "every history of SDK calls, including failing ones, and every interleaving of two or more concurrent calls",
  "Tests run single-threaded, each operation once, in a fixed order; module-level visitor objects are shared by all calls.",
  [S+"query.py", S+"metrics_query.py", S+"visitors.py", S+"mql_visitor.py"],
  [("VALIDATOR, MQL_PRINTER module-level instances are stateless", S+"query.py, metrics_query.py"), ("a Printer and Translation per call", S+"query.py")],
  ["outcome of every public operation"],
  [("shared visitors", "module-level validator and printer instances", S+"query.py, "+S+"metrics_query.py")]),
P("C17", "A delete query is never sent without restricting conditions",
  "A DeleteQuery validates and serializes only if it has at least one column condition and every listed column has at least one value; otherwise it raises, also when wrapped in a Request and also when its conditions were emptied after construction. When it serializes, the body contains exactly the given columns and values, unaltered.",
  ["inputs", "histories"], "every column-condition mapping, direct or through a Request, at construction or changed later",
  "Tests check two or three mappings; an unconditional delete must be impossible for every mapping and history.",
  [S+"delete_query.py", S+"request.py"],
  [("DeleteQuery.validate, DeleteQuery.serialize", S+"delete_query.py"), ("Request.to_dict", S+"request.py")],
  ["DeleteQuery.validate()", "DeleteQuery.serialize()", "Request.to_dict()"]),
P("C18", "Pretty-printing shows the same query as it was built",
  "For every valid Query, print() gives the text of the query exactly as built, with no condition rewritten: the same clauses and expressions in the same order as in serialization, with each clause of the outermost query on its own line and inner queries on one line. It raises exactly when serialize() would raise, and no literal value ever introduces a line break.",
  ["inputs", "programs"], "every valid Query, including nested subqueries and joins",
  "Tests pretty-print a few queries; agreement between the two outputs over all queries is never checked.",
  [S+"query.py", S+"query_visitors.py"],
  [("Query.print", S+"query.py"), ("Printer", S+"query_visitors.py")],
  ["Query.print()"]),
P("C19", "Expression search and aggregate detection see every nested expression",
  "Searching a query for columns, aliased expressions or functions (those Python can hash) finds exactly the expressions of that kind occurring in its clauses at any depth (outermost match wins), whatever clause, function parameter, initializer, lambda, condition side, array or tuple they are in. Asking whether a function is an aggregate answers yes exactly if it, or a function nested in its parameters, is a known aggregation function (any combinator suffix) or refers to a given aggregate alias; asking whether a function contains a column answers yes exactly if the column occurs as a parameter at any depth of nested functions.",
  ["inputs", "programs"], "every query and function tree",
  "Tests search a few trees for a few kinds.",
  [S+"visitors.py", S+"query_visitors.py", S+"snuba.py"],
  [("ExpressionFinder", S+"visitors.py"), ("ExpressionSearcher, is_aggregate, find_column_in_function", S+"query_visitors.py"), ("is_aggregation_function", S+"snuba.py")],
  ["ExpressionSearcher(kind).visit(query)", "is_aggregate(function, aliases)", "find_column_in_function(column, function)", "is_aggregation_function(name, aliases)"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(PROPS))
