import json,re
def where(sym,files):
    n=sym.split('.')[-1]; r=sym.split('.')[0] if '.' in sym else ''
    hits=[]
    for f in files:
        t=open('/repo/'+f).read()
        for m in re.finditer(r'func (\(\w+ %s\w*\) )?%s[\[(]|^\t?(type )?%s '%(r,n,n),t,re.M):
            hits.append('%s:%s'%(f,m.group(0).strip(' [(')[:60])); break
    return '; '.join(hits[:4]) or files[0]
P=[]
def p(id,title,st,over,qtext,why,files,syms):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":y,"where":where(y,files)} for y in syms]}})
SEL=["select_base.go","select_many.go","select_single.go"]
COND=["group.go","operations.go","logical.go","where.go"]
p("C01","Deriving a query, condition or definition never changes what already exists",
 "Every builder, condition, field, table, ordering, join, limiter and value definition is immutable: after any sequence of calls, everything obtained earlier still renders exactly the same SQL, parameters and attributes as when it was obtained. This includes several queries derived from one common ancestor, an incomplete join finished more than once, and lists handed to or returned by the API being overwritten by the caller afterwards. Rendering is pure: repeating it gives the same result.",
 ["histories"],"all finite histories of API calls over any set of live objects, with every earlier object re-observed after every call",
 "Tests build one straight chain and look only at its end; an aliasing bug needs two derivations from a shared ancestor whose backing array happens to have spare capacity.",
 SEL+COND+["join_unfinished.go","insert.go","update.go","delete.go","fields.go"],["BaseSelectBuilder","SelectManyBuilder","SelectSingleBuilder","Group.addConditions","incompleteBaseJoiner.On","InsertBuilder.Values","UpdateBuilder.Set","WhereClause"])
p("C02","Shared definitions can be derived from and rendered concurrently",
 "Any number of goroutines may derive new queries and conditions from the same shared definitions and render them at the same time, without data races. Each goroutine gets exactly the result it would get running alone, and the shared definitions stay as they were.",
 ["schedules"],"all interleavings of goroutines deriving from and rendering common ancestors",
 "No existing test starts a goroutine; package level queries shared by request handlers are the normal use of an immutable builder.",
 SEL+COND+["join_unfinished.go","insert.go","update.go"],["SelectManyBuilder.OrderBy","BaseSelectBuilder.joinIdent","Group.addConditions","InsertBuilder.Values","UpdateBuilder.Set"])
p("C03","Numbered placeholders and parameters correspond one to one",
 "In every SELECT, COUNT, INSERT, UPDATE or DELETE statement produced, and in every rendered condition, the numbered placeholders are exactly $1 to $n, each used once, where n is the number of returned parameters. The parameter at position k is the value that was supplied at the place where $k stands.",
 ["inputs","programs"],"all statements that can be built: any conditions tree, any number of set values, any value kinds including lists, with or without ordering, offset and limit",
 "Tests use a few fixed statements with at most a handful of parameters; off-by-one numbering shows only for particular mixtures of zero-, one- and many-parameter parts, or beyond nine parameters.",
 SEL+["group.go","insert.go","update.go","delete.go","count.go","limiter.go","lib_in.go","lib_isnull.go","value.go"],["Group.Render","BuildQueryAndParams","in.Render","FieldValue.Values"])
p("C04","Question-mark and numbered rendering agree, for any starting number",
 "Rendering with '?' placeholders gives the same SQL as rendering with numbered ones apart from the placeholders themselves, with the same parameters in the same left-to-right order. Rendering with k parameters already used shifts every number by exactly k and changes nothing else. For SELECT builders the stand-alone renderings carry the same clauses and parameters as the built statement.",
 ["inputs","programs"],"all conditions, where clauses, limiters and SELECT builders, and all starting counts k >= 0",
 "Both renderings are separate copies of the same code in every condition; tests sample only a few pairs and never compare the two for composed conditions or whole queries.",
 SEL+["group.go","where.go","limiter.go","lib_equal.go","lib_in.go","lib_like.go","lib_ilike.go","lib_gt.go","lib_gte.go","lib_lt.go","lib_lte.go","lib_isnull.go"],["Group.RenderSQL","Group.Render","RenderSQL","Limiter.Render"])
p("C05","Combining conditions with And, Or and Not keeps their logical meaning",
 "The WHERE text of any combination, read with standard SQL precedence (NOT before AND before OR), means what the calls say: x.And(y, z) is x AND y AND z; x.Or(y, z) is x OR (y AND z); Not(x) negates exactly x once; a group made with an operator joins all its members by that operator; a filter added to an already filtered query is joined to the whole existing filter with AND. Conditions combined this way keep their meaning as parts of larger ones, no condition is lost, duplicated or moved out of its brackets, and empty groups count for nothing. The conditions of the first filter call on an unfiltered statement form one flat list in which each further condition is attached by its own join type: AND by default, OR when it was produced by Or.",
 ["programs"],"all condition trees over all operators, any depth and any mixture of negation, grouping and operators, on conditions and on every filtered builder",
 "Grouping is a large case analysis over what the left side and the right side contain; tests cover some of the two-element cases only, mostly without negation, and compare text instead of meaning.",
 COND+["lib_isnull.go","lib_like.go","lib_ilike.go","base.go"],["Group.addConditions","Group.addGroup","Group.addSingleCondition","And","Or","Not","NewGroup","JoinType.Join"])
P[-1]["statement"]="The WHERE text of any combination, read with standard SQL precedence (NOT before AND before OR), means what the calls say: x.And(y, z) is x AND (y AND z); x.Or(y, z) is x OR (y AND z); Not(x) negates all of x, once, and nothing else; a group made with one operator joins all its members by it; a filter added to an already filtered query is joined to the whole existing filter with AND. Combinations keep their meaning inside larger ones: nothing is lost, duplicated, or moved out of its brackets, and empty groups count for nothing. The first filter call on an unfiltered statement forms a flat list where each condition after the first is attached by its own join type: AND by default, OR for the result of an Or call. The conditions a where clause lists mean the same filter."
p("C06","Each comparison renders its own operator, field, negation and value",
 "Equal, greater, greater-or-equal, less, less-or-equal, IN, LIKE, ILIKE and IS NULL conditions render exactly that comparison on exactly the given (possibly table-qualified) field, bound to exactly the given value. A negated comparison is true exactly for the non-null rows where the plain one is false. LIKE and ILIKE bind the given text between percent signs, IN has one placeholder per list element, IS NULL has none.",
 ["inputs"],"all comparison kinds, field names, values of any type and list lengths, negated or not, alone or inside groups",
 "Tests check single instances in a fixed form; a wrong operator, lost NOT or unwrapped value in one of the two renderings or in a combined form goes unnoticed.",
 ["lib_equal.go","lib_gt.go","lib_gte.go","lib_lt.go","lib_lte.go","lib_in.go","lib_like.go","lib_ilike.go","lib_isnull.go","field_name.go","value.go"],["EqualTo","In","Contains","IContains","IsNull","Render","RenderSQL"])
p("C07","UPDATE and DELETE are never produced without a filter",
 "Building an UPDATE or DELETE fails with an error unless at least one real condition was supplied; empty groups are no conditions, so no statement that would touch every row can come out. UPDATE and INSERT without any value, and UPDATE, DELETE and INSERT without a table name, fail too. A refused build returns an error of the package and an empty statement, and everything that does have filter, values and table builds without error.",
 ["programs","histories"],"all ways to obtain an UPDATE, DELETE or INSERT builder (constructors, shortcuts, conversion from a SELECT) and all sequences of filter and value calls",
 "Tests check the plain empty builder; a guard can be lost for empty groups, for conversions from SELECT and for particular orders of calls.",
 ["update.go","delete.go","insert.go","group.go","select_base.go","select_many.go","select_single.go","table_name.go","table_ident.go"],["UpdateBuilder.BuildQueryAndParams","DeleteBuilder.BuildQueryAndParams","InsertBuilder.BuildQueryAndParams"])
p("C08","A SELECT keeps every requested clause whatever the order of calls",
 "The SELECT statement of any select builder (plain, many-row or single-row) contains exactly the fields, table, joins, filter, ordering, offset and limit requested by the calls made on it, independent of the order in which different clauses were requested. A later field list replaces the earlier one, orderings and joins accumulate in call order, filters accumulate with AND, a later offset or limit replaces the earlier one, and a single-row query always has LIMIT 1.",
 ["histories"],"all sequences of builder calls on all three select builders and across conversions between them",
 "Tests call each method once on a fresh builder; a clause dropped by another call needs a specific pair of calls in a specific order on a specific builder.",
 SEL+["fields.go","ordering.go","where.go"],["BuildQueryAndParams","Fields","Where","OrderBy","Offset","Limit","Many","Single"])
p("C09","COUNT counts over the same source and filter as its SELECT",
 "A count query derived from any select builder has the same table, joins, filter and parameters as that select's own statement, and neither ordering nor paging. It counts the requested column, or * when none was requested.",
 ["histories"],"all select builders in any state, every way to make a count from them",
 "Pagination totals rely on it; tests compare only single-table counts with a simple filter.",
 ["count.go","select_base.go","select_many.go","table_ident.go"],["Count","CountBuilder.BuildQueryAndParams"])
p("C10","INSERT pairs every column with its own value",
 "An INSERT statement targets the given table and lists every supplied field exactly once per supplied value, in the order supplied, over all calls that supplied values. The i-th column's placeholder is bound to the value given for that field, for every kind of value.",
 ["inputs","histories"],"all sequences of value calls, any number of columns, all value kinds including lists, nil and converting types",
 "Tests insert one or two scalar columns; shifted pairing needs list values or several calls.",
 ["insert.go","value.go","select_base.go","table_name.go","table_ident.go"],["InsertBuilder.BuildQueryAndParams","InsertBuilder.Values","InsertBuilder.SetValues"])
p("C11","UPDATE and DELETE apply exactly the given values and filter to the given table",
 "An UPDATE statement assigns to every supplied field its own value, in the order supplied over all calls, on the given table, and its filter parameters follow the assignment parameters. UPDATE and DELETE filters mean exactly the conditions supplied, whatever the order of value and filter calls.",
 ["inputs","histories"],"all sequences of set and filter calls, any number of assignments, all value kinds, any condition tree",
 "Tests use one assignment and one condition; wrong numbering or a lost filter needs several of both or list values.",
 ["update.go","delete.go","value.go","group.go"],["UpdateBuilder.BuildQueryAndParams","UpdateBuilder.Set","UpdateBuilder.Where","DeleteBuilder.BuildQueryAndParams"])
p("C12","Converting a query to another statement keeps its table and filter",
 "Turning a select builder into UPDATE, DELETE, INSERT, COUNT, single-row or many-row form keeps the base table's real name (never its alias for writing statements) and the full meaning of the filter with its parameters. The filter of the converted statement selects the same rows even if it was built from several filter calls, groups or negations.",
 ["histories"],"all select builders in any state and all conversions, including chains of conversions",
 "Tests convert one-condition queries only; a filter split into a list of conditions may lose brackets or negation only for composed filters.",
 SEL+["where.go","update.go","delete.go","insert.go","count.go"],["Update","Delete","InsertInto","Count","Many","Single","WhereClause.Conditions"])
p("C13","Field and table references are parsed and rendered faithfully",
 "A field reference text of the documented forms (name, table.name, each optionally with 'as alias') gives exactly that table, name and alias; a table reference (name, name alias, name as alias) likewise, an alias equal to the table name counting as none. Anything else is refused, with an error of the package or a panic according to the constructor, and nothing is silently dropped. Select lists render the column with its alias (an alias equal to the column's name is written only when the column is table-qualified), ordering renders the alias when it differs from the name, joins and conditions and counts render the real column.",
 ["inputs"],"all reference texts including any spacing and letter case of 'as', and all fields and tables made with the naming methods",
 "Tests list a handful of well-formed texts; malformed shapes (extra dots or words, tabs, empty parts) and alias/table combinations are unbounded.",
 ["field_definition.go","table_ident.go","table_name.go","field_name.go","fields.go"],["FieldOrError","Field","TableOrError","Table","RenderSpec","RenderField","RenderTableSpec","TableIdent.RenderFrom"])
p("C14","Rebinding fields changes exactly the matching references",
 "Applying a field definition to a condition, group, where clause, value or ordering replaces the reference of every member with the same field name, at any nesting depth, and leaves all others as they were; applying a table re-qualifies every member. Operators, negation, joins, brackets, values and their order stay the same.",
 ["inputs","programs"],"all condition trees, values and orderings, any matching or non-matching definition, repeated application",
 "Tests rebind single conditions; nested, negated or partly matching groups and preservation of everything else are not covered.",
 ["group.go","where.go","value.go","ordering.go","lib_equal.go","lib_in.go","lib_isnull.go","lib_like.go","lib_ilike.go","lib_gt.go","lib_gte.go","lib_lt.go","lib_lte.go"],["ApplyFieldSpec","ApplyFieldTable"])
p("C15","Values reach the parameters converted once and unchanged otherwise",
 "A value that knows its database form (driver valuer or value provider) is bound as that form, alone or as an element of an IN list; any other value is bound unchanged, with its type. A list given to IN yields its elements in order; a list given to a comparison, INSERT or UPDATE is bound as one parameter. A conversion error is never turned into a NULL.",
 ["inputs"],"all value kinds, lists of them, in every statement and condition that takes values",
 "Tests convert a few scalars directly; the same value passes different code in conditions, inserts and updates.",
 ["value.go","field_name.go","insert.go","update.go","lib_in.go","lib_equal.go","lib_like.go","lib_ilike.go"],["FieldValue.Values","FieldName.Value","ValueProvider"])
p("C16","SQL text never depends on the values",
 "Two runs of the same calls that differ only in the bound values (of the same list lengths) produce identical SQL text, and no bound value ever appears in SQL text. Values reach the database only as parameters, whatever quotes, placeholders or SQL they contain.",
 ["inputs"],"all pairs of runs differing in values only, including hostile strings containing quotes, comments, '?' and '$1'",
 "It is a property of pairs of runs over all values (SQL injection safety); tests look at single runs with harmless values.",
 SEL+["group.go","insert.go","update.go","delete.go","count.go","value.go","limiter.go","lib_equal.go","lib_in.go","lib_like.go","lib_ilike.go"],["BuildQueryAndParams","Render","RenderSQL"])
p("C17","Untrusted names and directions are refused, valid ones accepted",
 "Name validation refuses empty names, quotes, any white space, more than one dot and a dot at either end, and accepts every other name; orderings refuse invalid names and any direction other than ascending or descending. A map of values turns into field values exactly when all its keys are valid, with every key and value present exactly once and nothing else. Every refusal is an error of the package.",
 ["inputs"],"all names and direction texts, all value maps",
 "It is the guard for names coming from outside; tests try a few bad characters in one position each.",
 ["field_name.go","ordering.go","values_map.go","utils.go"],["FieldName.Validate","ASC","DESC","OrderBy","ValuesMap.FieldValues","UniqFieldNames"])
p("C18","Joins render their own type, table and fields",
 "Every join requested on a select builder appears in request order with its own join type, its right table with alias, and exactly the two table-qualified fields it was finished with. An incomplete join can be finished several times with different fields, each result carrying its own condition, and finishing one join never alters another.",
 ["histories"],"all sequences of joins of all types on all select builders and tables, finished in any order and any number of times, with aliases",
 "Tests join two tables once; reuse of an incomplete join and three or more joins are not covered.",
 ["join_unfinished.go","join_tables.go","join_condition.go","join_type.go"]+SEL+["table_ident.go","table_name.go"],["On","TableJoiner","JoinCondition","TableJoinType","joinIdent"])
p("C19","Shortcuts are equivalent to the constructors they stand for",
 "Every way to request the same thing gives the same result: package functions, table name, table identifier and field name methods; plain text, table name or table identifier arguments; filters passed to a shortcut or added afterwards; named join, ordering and paging methods or their general forms. Equivalent requests give the same statements, parameters and attributes at every later step.",
 ["programs"],"all documented equivalent spellings of each request, in all positions of a chain of calls",
 "Tests compare a few spellings in isolation and rarely continue the chain.",
 ["table_name.go","table_ident.go","field_name.go","select_base.go","select_many.go","select_single.go","insert.go","update.go","delete.go","join_type.go","join_condition.go","ordering.go"],["SelectFrom","SelectManyFrom","SelectSingleFrom","TableName.Select","TableIdent.Select","FieldName.EqualTo","OrderBy"])
p("C20","Paging and ordering are rendered exactly as requested",
 "A positive offset or limit appears once with its own value bound, zero offset and non-positive limit appear not at all, in builders and in stand-alone limiters, and offset and limit are never exchanged. Orderings appear in request order, each with its own field and direction. Paging parameters come after all filter parameters.",
 ["inputs","histories"],"all combinations and repetitions of ordering, offset and limit calls with any numbers, on builders with any filter",
 "Tests use one offset and one limit on a short query; exchanged or mis-numbered paging needs both together with a filter.",
 ["limiter.go","ordering.go","select_many.go","select_base.go"],["Limiter","SelectManyBuilder.Offset","SelectManyBuilder.Limit","OrderBy","ASC","DESC"])
p("C21","User-defined conditions combine like built-in ones",
 "A condition type written by the user, with any number of placeholders including none, can be combined with and inside built-in conditions and used in every filtered statement. It is asked to render with the exact number of preceding parameters, its own text appears unchanged, its parameters appear in place, and numbering continues correctly after it.",
 ["programs"],"all condition trees mixing user-defined conditions of any parameter count with built-in ones, in every statement kind",
 "Extensibility is advertised but no test defines its own condition type.",
 COND+["interfaces.go","base.go","update.go","delete.go"],["Condition","BaseCondition","Group.Render","Group.Values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x["statement"]))
    if n>3 or len(x["title"])>80: print(x["id"],n,len(x["title"]))
