#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one row per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))
A="pkg/attr/"; H="pkg/hydratables/"; R="pkg/renderables/"; S="pkg/serializables/"
IN=["inputs"]
FEW="The existing tests load a handful of filings and compare a few rendered values; none of them varies "

p("C01","Attribute lookup and qualified-name resolution",
  "Looking an attribute up by local name yields the first attribute carrying that local name, or nothing when there is none. A prefixed name resolves to the namespace bound to its prefix, an unprefixed name or one with an unbound prefix to the default namespace, and a name that ends in its colon resolves to nothing. A string counts as a URL only if it is absolute with both a scheme and a host.",
  IN,"every attribute list and every name string", FEW+"attribute order, missing prefixes or dangling colons.",
  [A+"attr.go",A+"url.go"],[("FindAttr, FindXpathAttr, Ns, Xmlns, IsValidUrl",A+"attr.go")])
p("C02","Output namespace prefixes are unambiguous",
  "For every set of namespace declarations found on the nodes of an inline document, every declared prefix that is used resolves to the namespace it was declared for, two different namespaces never share one output prefix and one namespace never gets two. A name without a prefix is returned as a plain local name. Building names never fails or crashes, however many namespaces or prefix clashes there are.",
  IN,"every list of declarations, including clashing and repeated prefixes, and every name", FEW+"prefix clashes between nodes or the number of namespaces.",
  [A+"name.go"],[("NewNameProvider, ProvideName, ProvideXmlName, ProvideConceptName, processPrefixes",A+"name.go")])
p("C03","Schema hydration keeps every declaration",
  "Loading a taxonomy schema yields exactly one role type per role declaration of its annotation that has an id and a role URI, and exactly one concept per element declaration that has a name, an id and a type. They keep document order and carry their own declared name, target namespace, type, substitution group, period type, balance, nillable and abstract flags and typed-domain reference, and for role types definition and uses. No declaration is lost, duplicated or given another declaration's attributes.",
  IN,"every schema document", FEW+"malformed, missing or reordered attributes.",
  [H+"schema.go"],[("HydrateSchema and its helpers",H+"schema.go")])
p("C04","Linkbase hydration is faithful to the XLink document",
  "For presentation, definition, calculation and label linkbases, the loaded model holds exactly the well-formed role references, locators, arcs and label resources of each extended link, in document order, with the role, label, href, arcrole, from, to, order, weight, preferred label, closed, usable and target role that the document states. Malformed items (missing or wrongly-namespaced mandatory attributes) are skipped without affecting their neighbours. An order that is not a number sorts last and a weight that is not a number is zero.",
  IN,"every linkbase document", FEW+"malformed arcs, boolean attributes or namespaces.",
  [H+"presentationLinkbase.go",H+"definitionLinkbase.go",H+"calculationLinkbase.go",H+"labelLinkbase.go",H+"linkbase.go"],[("HydratePresentationLinkbase / Definition / Calculation / Label",H)])
p("C05","Same-role links are merged without loss",
  "After loading, each presentation, definition or calculation role has exactly one link, and that link holds the locators and arcs of all links with that role, concatenated in document order, and of no other link.",
  IN,"every list of links with any repetition of roles", FEW+"the number of links sharing a role.",
  [H+"presentationLinkbase.go",H+"definitionLinkbase.go",H+"calculationLinkbase.go"],[("dedupPresentationLink, dedupDefinitionLink, dedupCalculationLink",H)])
p("C06","Concept lookup finds the declared concept or reports its absence",
  "Looking a concept up by a schema location with a fragment returns the first concept with that id in exactly the schema named by the location, together with its namespace, and an error when there is none. Looking it up by namespace and local name returns the first concept with that name in a schema registered for that namespace, together with the location of that schema and the concept's id, and an error when there is none. An entity is named as it is registered for its scheme and identifier.",
  IN,"every loaded filing and every query string", FEW+"missing schemas, fragments or duplicated ids.",
  [H+"query.go"],[("HashQuery, NameQuery, EntityQuery",H+"query.go")])
p("C07","Reporting contexts are loaded faithfully",
  "Each context with an id and an entity becomes exactly one loaded context holding its own entity identifier, scheme and period and, in order, exactly the explicit and typed dimension members of its segment and scenario that name a known concept. The result is ordered by id, with equal ids keeping document order, and a malformed context never affects another one or crashes the load.",
  IN,"every instance document", FEW+"segments, scenarios or malformed contexts.",
  [H+"instance.go"],[("HydrateInstance, hydrateContexts and its helpers",H+"instance.go")])
p("C08","Facts are loaded faithfully",
  "Every well-formed fact of the instance becomes exactly one loaded fact that keeps its own id, concept, context, unit, value and nil state, with the decimals attribute read as the stated precision, as exact for INF, and as unspecified otherwise. Facts are ordered by id with ties in document order.",
  IN,"every instance document", FEW+"ids, decimals, nil markers or order.",
  [H+"instance.go",H+"fact.go",H+"precision.go"],[("HydrateInstance, hydrateFacts",H+"instance.go"),("FindFact",H+"fact.go")])
p("C09","Units resolve to their own measures",
  "Every unit keeps its own id and either its own measure or its own numerator and denominator measures, ordered by id. Looking a unit up by its id returns, for a ratio, the registry entry of the numerator for the numerator and that of the denominator for the denominator, for a plain unit that of its measure, and nothing when the registry has no entry.",
  IN,"every instance document and unit registry", FEW+"ratio units or units missing from the registry.",
  [H+"instance.go",H+"measurement.go"],[("hydrateUnits, FindMeasurement, mapMeasurements, queryUTR",H+"measurement.go")])
p("C10","Footnotes reach exactly the facts they are linked to",
  "The footnotes reported for a fact are exactly those footnote resources that some footnote link connects by an arc to a locator pointing at that fact, in arc order, whatever other footnote links exist. Footnote links, locators, arcs and resources that are malformed are skipped and all others are kept.",
  IN,"every instance with any number of footnote links", FEW+"several footnote links or facts without an id.",
  [H+"instance.go",H+"fact.go"],[("hydrateFootnoteLinks, GetFootnotes, FindFootnote",H+"fact.go")])
p("C11","Every grid cell shows the fact of its row and column",
  "In every rendered grid the value matrix has one row per row heading and one column per context, and each cell is the rendering of the fact reported for exactly that row's concept in exactly that column's context, or blank when none was reported.",
  IN,"every filing and every grid", FEW+"empty rows, missing facts or the number of columns.",
  [R+"factualQuadrant.go"],[("getFactualQuadrant",R+"factualQuadrant.go"),("FindFact",H+"fact.go")])
p("C12","Footnote markers match the footnote list",
  "The marker numbers shown on a cell are, for every footnote of that cell's fact and only for those, the one-based positions of that footnote in the footnote list delivered with the same grid. The list holds every footnote of every shown fact exactly once.",
  IN,"every filing with footnotes", FEW+"the number of footnotes per grid.",
  [R+"factualQuadrant.go"],[("getFactualQuadrant",R+"factualQuadrant.go")])
p("C13","A displayed value preserves the reported number",
  "A numeric fact is displayed with the digits of its own reported value at its stated precision in the separators of the language, percentages multiplied by one hundred, together with the symbol or name of its own unit and denominator. Nil facts, plain text and values that cannot be read as a number are displayed as such, and a reported fact always has a display for the unlabelled language and for each language its row labels are in.",
  IN,"every fact", FEW+"precision, sign or magnitude systematically.",
  [R+"fact.go"],[("render and its helpers",R+"fact.go")])
p("C14","Catalog slugs resolve to the network they were listed for",
  "Every slug listed in the catalog for an entity and relationship set is accepted by the rendering request and renders that same entity and relationship set. A slug the catalog does not list is answered with an error.",
  IN,"every filing and every slug string", FEW+"several entities, several networks or unknown slugs.",
  [R+"catalog.go",R+"renderable.go"],[("MarshalCatalog, MarshalRenderable, hash",R+"catalog.go")])
p("C15","The catalog lists each entity and relationship set once, in order",
  "The catalog lists every entity that has contexts exactly once and every relationship set declared by the filing's schemas exactly once, with its own title, entities sorted by scheme and identifier and relationship sets by title and role. Nothing else is listed, and every listed pair of them has its own slug.",
  IN,"every filing", FEW+"repeated entities or undefined roles.",
  [R+"catalog.go",R+"relationshipSet.go"],[("sortedSubjects, sortedRelationshipSets",R+"catalog.go")])
p("C16","Grid columns are exactly the contexts that report on the rows",
  "The columns of a grid are exactly the contexts of the requested entity in which at least one of the grid's non-abstract rows has a fact, each exactly once, ordered by period and then by the number of dimension members.",
  IN,"every filing and every list of rows", FEW+"facts without contexts or several entities.",
  [R+"contexts.go"],[("getRelevantContexts",R+"contexts.go")])
p("C17","Column headers show each context's own members",
  "For every column the header grid shows, for each explicit or typed dimension in use, the member this column's context has for that dimension, and leaves the cell blank when it has none. The header rows are exactly the dimensions that the shown contexts use, and the header and value areas agree on the number of columns.",
  IN,"every filing with dimensions", FEW+"columns lacking some of the dimensions.",
  [R+"contextualQuadrant.go"],[("getMemberGridAndVoidQuadrant",R+"contextualQuadrant.go")])
p("C18","Presentation rows follow the presentation tree",
  "The rows of a presentation grid are the trees of its presentation arcs in depth-first order, siblings by ascending arc order, each row indented by its depth and naming the concept its locator points at. Every node of the network appears exactly as often as the arcs say.",
  IN,"every presentation network", FEW+"depth, fan-out or equal orders.",
  [R+"presentationGrid.go"],[("getIndentedLabels",R+"presentationGrid.go")])
p("C19","Calculation contributions keep weight and sign",
  "For every summation item the calculation grid lists exactly its contributing concepts, ordered by the arc order, each with its balance type, the absolute weight stated on its arc to one decimal and a minus sign exactly when that weight is negative, and marked as a summation item exactly when it is one itself.",
  IN,"every calculation network", FEW+"weights other than plus or minus one or repeated concepts.",
  [R+"calculationGrid.go"],[("getSummationItems and helpers",R+"calculationGrid.go")])
p("C20","Dimensional relationships are reported exactly",
  "For every definition network, the reported dimensional relationship set holds exactly one link per arc, in arc order, with the arc's own source, target, order and flags: usable, default, closed, inclusive or exclusive, context element and target role. Its nodes are exactly the concepts these links mention, each once.",
  IN,"every definition network", FEW+"defaults, closed hypercubes or unusable members.",
  [R+"dimensionRelationshipSet.go"],[("getDRS",R+"dimensionRelationshipSet.go")])
p("C21","Effective domains contain exactly the admissible members",
  "For every primary item and dimension of a definition network, the effective domain lists exactly the default members of the dimension and the members of its own domains when a hypercube attached to that item has the dimension, defaults flagged as such and the members of an excluding hypercube struck through. The primary items follow the domain-member tree and every dimension appears once.",
  IN,"every definition network", FEW+"exclusions and defaults of several dimensions.",
  [R+"effectiveDomainGrid.go"],[("getEffectiveDomain",R+"effectiveDomainGrid.go")])
p("C22","A concept's labels are exactly those its label links assign",
  "For every concept, the label shown for a role and language is the text of a label resource that a label arc connects to that concept with exactly that role and language. A label in a supported language or language variant is never dropped, and the concept's location is always available as a label.",
  IN,"every label linkbase", FEW+"roles, language variants or several label links.",
  [R+"label.go"],[("GetLabel and its helpers",R+"label.go")])
p("C23","Offered label roles and languages are the union of those available",
  "Every label role and every language in which some shown row, dimension, member or typed domain has a label is offered with the rendering, each listed once. No role or language is offered for which the filing has no label at all.",
  IN,"every set of label packs", FEW+"labels with differing languages per role.",
  [R+"labelPack.go"],[("reduce, destruct, dedup",R+"labelPack.go")])
p("C24","Period headers state the context's own period",
  "For every context, the period header shows an instant context's instant and a duration context's number of started calendar months and end date, formatted for each offered language, and the dates as reported when the duration is shorter than thirty days, a date is unreadable or the language has no format.",
  IN,"every context period", FEW+"instants, unreadable dates or languages.",
  [R+"formatPeriod.go",R+"english.go",R+"spanish.go"],[("formatPeriod",R+"formatPeriod.go")])
p("C25","Rendered text blocks cannot inject markup",
  "The HTML delivered for a text-block fact contains only table, row, cell and line-break tags without any attributes, and none of the reported text is turned into markup. Text content is preserved in order.",
  IN,"every string", FEW+"escaped characters or hostile markup.",
  [R+"textBlock.go"],[("renderTextBlock",R+"textBlock.go")])
p("C26","Caching never changes an answer",
  "For every sequence of requests naming filing folders, each answer, success or error, is the one the same request would get from an uncached computation on the same filing. A failed computation is never remembered, neither as a success nor as a failure of a later request that could be served.",
  ["histories","inputs"],"every sequence of requests", FEW+"request histories with failures.",
  ["pkg/cache/cache.go"],[("Marshal..., hydratable",  "pkg/cache/cache.go")])
p("C27","HTTP status reflects the outcome of the request",
  "A request with another method than GET is refused (500 by the handlers, 405 by the router), one without an identifier or hash or with an undecodable parameter value with 400, and one whose query cannot be parsed with 500. A request whose computation fails is answered with 500, and only a successful one is answered with 200 and exactly the computed bytes.",
  IN,"every request", FEW+"the HTTP layer at all.",
  ["internal/web/web.go"],[("Renderable, Catalog, Expressable handlers","internal/web/web.go")])
p("C28","Discovery keeps every referenced file",
  "Discovering a filing loads every local schema that defines a namespace and every local linkbase that the instance and its schemas refer to, also when schemas import each other, each stored under its own name and in the category its reference states, and every namespace is associated with the location of the schema that defines it. References that cannot be resolved are reported or skipped without losing the others.",
  IN,"every filing folder", FEW+"reference kinds, roles or missing files.",
  [S+"folder.go"],[("Discover and its helpers",S+"folder.go")])
p("C29","Shared taxonomy lookups stay inside the store",
  "For every URL, a lookup in the shared taxonomy store names a file strictly inside the store or is refused; the file depends only on the URL's scheme, host name and path, and locations that differ in one of them never share a file. The lookup of a file that is there yields its bytes and a missing file is reported as an error.",
  IN,"every URL string", FEW+"hostile or unusual URLs.",
  [S+"global.go"],[("UrlToFilename, DiscoverGlobalFile",S+"global.go")])
p("C30","A created filing folder can be found again",
  "Creating a filing folder with given metadata yields an identifier under which the same metadata is found again, and a second creation with the same key is refused and changes nothing.",
  ["inputs","histories"],"every metadata value and every sequence of creations", FEW+"repeated creation or failing file operations.",
  [S+"underscore.go"],[("NewFolder, GetEntryFileName",S+"underscore.go")])
p("C31","Inline images become data of their own file",
  "The local JPEG and PNG images an inline document refers to are discovered, every image of the document whose source has the name of a discovered file as its last path element is replaced by a data link that carries that file's own bytes and type, and every other image is left unchanged.",
  IN,"every document and image set", FEW+"unknown images.",
  [S+"image.go"],[("TransformInlineImages",S+"image.go")])
p("C32","Inline facts are addressable by name and context",
  "Every inline fact with a name and a context can be retrieved under exactly that name and context, facts lacking either are skipped without affecting the others, and a request for a combination that was not reported yields no fact. A name whose prefix is not declared makes the load fail with an error.",
  ["inputs","schedules"],"every inline document", FEW+"missing attributes.",
  [H+"document.go",R+"expressable.go"],[("HydrateDocument, MarshalExpressable",H+"document.go")])
p("C33","Loading covers every discovered file",
  "After loading, each discovered schema, linkbase, instance and document is present in the model under its own file name and nothing else is present, and a file that cannot be loaded makes the load fail with an error.",
  IN,"every discovered folder", FEW+"failing files.",
  [H+"hydratable.go"],[("Hydrate",H+"hydratable.go")])
p("C34","Concurrent requests are free of data races",
  "For every interleaving of concurrent requests and of the workers of one request, no shared result is accessed without synchronisation and the answer is the same as for some sequential order.",
  ["schedules"],"every schedule", "The tests run one schedule.",
  [R+"renderable.go",H+"document.go","pkg/cache/cache.go"],[("sync.WaitGroup, mutexes",R+"renderable.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
