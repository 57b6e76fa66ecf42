"""The catalogue of properties: statements, anchors and how each is decided.
tools_manifest.py writes properties.jsonl and MANIFEST.json from it."""
PROPERTIES = []

ALL_PATHS = 'the suite runs 618 cases; error paths, rare options and whole modules (the SQL layer) are never executed by it'


def P(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None):
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': ['pyslet/pyslet/' + f for f in files],
                    'mechanism': [{'name': n, 'where': 'pyslet/pyslet/' + w} for n, w in mechanism]},
        'technique': technique, 'level_note': note, 'na': na})


P('C01', 'Everything the library reads by name exists and is assigned',
  'Whatever path a call takes through the library, error and rarely used paths included, every global name, every '
  'attribute of an imported module or of the receiving object, and every attribute name at all that it reads is '
  'defined by something in the program or in the libraries it uses. Every local variable has been assigned before it '
  'is read. So no input makes a documented operation fail with an undefined-name, missing-attribute or '
  'unassigned-variable error.',
  ['inputs', 'programs'], 'every input and call sequence that reaches any statement of the library',
  'Python resolves names when a statement runs; ' + ALL_PATHS,
  ['odata2/csdl.py', 'odata2/core.py', 'odata2/server.py', 'odata2/sqlds.py', 'rfc2616.py', 'rfc2396.py', 'iso8601.py',
   'qtiv1/common.py', 'qtiv2/core.py', 'xml20081126/parser.py'],
  [('module namespaces and imports', 'every module'), ('class hierarchies', 'every module'),
   ('assignment on all branches', 'every function')],
  'whole-package name and attribute resolution; path-sensitive definite-assignment dataflow',
  'Sound for global names, module attributes and locals up to a short list of infeasible paths read by hand; attributes '
  'of objects of unknown class are only required to exist on some class of the program or its libraries.')

P('C02', 'Calls, message formats and raised values fit what receives them',
  'Every call to a function, method or constructor of the library made by the library passes arguments that some '
  'implementation it can reach accepts; every superclass call names a superclass of its object; every message format '
  'is given exactly the operands its conversions take; and every value raised is an exception. So an error is '
  'reported as the error it is, never as an argument or formatting failure.',
  ['inputs', 'programs'], 'every input and call sequence that reaches any call, format or raise of the library',
  'signatures and formats are checked only when the statement runs; ' + ALL_PATHS,
  ['odata2/csdl.py', 'odata2/sqlds.py', 'odata2/memds.py', 'rfc2616.py', 'iso8601.py', 'xml20081126/structures.py',
   'qtiv2/core.py'],
  [('call signatures', 'every module'), ('error messages', 'every module')],
  'signature, format-string and exception-hierarchy checks over the syntax trees with class-hierarchy call resolution',
  'Every resolvable call site, literal format and raise is checked; calls through values of unknown class are not.')

P('C08', 'Each request gets one response whose Content-Length fits the body',
  'Whatever a request to an OData or Atom server contains, the server starts exactly one response before it hands back '
  'the body, error responses included. That response carries a Content-Length header, given as a string, and its value '
  'is the number of bytes in the body handed back with it.',
  ['inputs'], 'every request: method, path, query options, headers and body',
  'a response started twice or with a wrong length shows only for the particular error or value (for example text that '
  'is not ASCII) that takes that path',
  ['odata2/server.py', 'rfc5023.py'],
  [('WSGI entry points', 'odata2/server.py'), ('WSGI entry point', 'rfc5023.py')],
  'typestate of start_response and value-origin tracking of Content-Length and body along every path of the WSGI entry points',
  'Interprocedural and path-sensitive over all exception edges; data strings built by formatting are taken to be byte strings.')

P('C05', 'Every database transaction is ended, and only success commits',
  'On every path through the SQL layer, errors at any point and abandoned iterations included, a transaction that was '
  'begun is closed before control leaves the operation. An operation that returns normally has committed what it '
  'executed as its last step; one that fails raises its error and has rolled back, and never fails after committing. '
  'A nested begin, commit, rollback or close acts on its own nesting level only.',
  ['inputs', 'fault_sequences'], 'every operation of the SQL layer and every point at which a statement or a nested operation can fail',
  'no test of the suite opens a database, and a failure would have to be provoked at every statement',
  ['odata2/sqlds.py'],
  [('transaction object', 'odata2/sqlds.py:SQLTransaction'), ('operations that use it', 'odata2/sqlds.py')],
  'interprocedural typestate of the transaction object over all paths with exception edges; abstract interpretation of its class',
  'Exhaustive over the paths of the SQL layer; every call is taken to be able to fail; closing a cursor is taken not to.')

P('C06', 'One change to the database is one transaction',
  'When a change to the database makes further changes necessary (inserting bound entities, setting, replacing or '
  'clearing links, cascading a delete), those further changes are executed in the same transaction as the change that '
  'needs them. Nothing done while that transaction is under way commits it early.',
  ['inputs', 'fault_sequences'], 'every operation of the SQL layer that makes more than one change, and every point at which it can fail',
  'atomicity shows only when a later step fails; no test of the suite opens a database',
  ['odata2/sqlds.py'],
  [('insert, update, delete and link operations', 'odata2/sqlds.py')],
  'interprocedural dataflow of the transaction to every function a call can reach, while it is begun',
  'Calls are resolved by name over the classes of the SQL layer; three places that read a collection inside a transaction are known findings.')

P('C03', 'No data value becomes part of the text of an SQL statement',
  'Every statement the SQL layer executes is assembled only from constants, mangled or quoted names of the metadata '
  'model, integers and parameter placeholders. Values from entities, keys, filters and skiptokens reach the database '
  'only as parameters, so no request can change the structure of a statement. A name that is quoted has the quote '
  'character in it removed or doubled.',
  ['inputs'], 'every filter, ordering, page, key and entity value, on every path that executes a statement',
  'no test of the suite runs a statement, and an injection needs a particular value in a particular place',
  ['odata2/sqlds.py'],
  [('query assembly', 'odata2/sqlds.py'), ('expression conversion', 'odata2/sqlds.py:SQLExpression'),
   ('name quoting', 'odata2/sqlds.py:QuoteIdentifier')],
  'interprocedural abstract interpretation of the statement texts over an algebra of text fragments (provenance)',
  'Exhaustive over the paths of the SQL layer with assume-guarantee contracts for the mutually recursive expression '
  'converters; names from the mangled-name table are trusted as metadata.')

P('C04', 'Parameters are bound in the order of their placeholders',
  'In every statement the SQL layer executes, each parameter that was added has its placeholder in the text, exactly '
  'once, and the placeholders stand in the order in which the parameters were added. So with a database whose '
  'parameters are positional each value is bound to the place it was meant for.',
  ['inputs', 'programs'], 'every combination of filter, ordering, page, key and entity value, on every path that executes a statement',
  'a swap shows only when two clauses with parameters occur together and the database is positional; no test of the suite runs a statement',
  ['odata2/sqlds.py'],
  [('query assembly', 'odata2/sqlds.py'), ('expression conversion', 'odata2/sqlds.py:SQLExpression')],
  'abstract interpretation of the statement texts: interval of the parameter counter per fragment, adjacency at every concatenation',
  'Exhaustive over the paths of the SQL layer; fragments held in a list are taken to be joined in list order.')

P('C09', 'Safe requests change nothing; a read-only server accepts no change',
  'A GET or HEAD request to the OData server, or a request with any method other than the ones the protocol defines for '
  'changes, never inserts, updates, deletes or links an entity or replaces a stream, whatever its path, query options, '
  'headers and body are. A read-only server makes no such change for any method. Function imports are exempt.',
  ['inputs'], 'every request: method, path, query options, headers and body',
  'a test sends some GET requests; a change reached only through a rare resource path, option or method spelling goes unseen',
  ['odata2/server.py'],
  [('dispatch on the request method', 'odata2/server.py:Server.HandleRequest'),
   ('read-only server', 'odata2/server.py:ReadOnlyServer')],
  'constant propagation of the request method along every feasible path from the WSGI entry point; reachability of changing operations',
  'Exhaustive over the paths of the server module for each representative method; operations are recognised by name in '
  'the data layers and everything there that calls them.')

P('C24', 'Requests on one HTTP connection are sent once, in order, and answered in order',
  'A request queued on a connection of the HTTP client is sent exactly once, after the requests queued before it. While '
  'a response is outstanding only a request with an idempotent method (GET, HEAD, PUT, DELETE, OPTIONS or TRACE) is '
  'sent. Each response is given to the oldest request sent that has none yet.',
  ['inputs', 'schedules', 'histories'], 'every mix of requests and methods on a connection and every timing of the responses',
  'a request sent too early or a response given to the wrong request needs several requests under way at once with a particular timing',
  ['rfc2616.py'],
  [('connection state machine', 'rfc2616.py:Connection.ConnectionTask'), ('queueing', 'rfc2616.py:HTTPRequestManager.QueueRequest')],
  'abstract state machine of the two queues, the current request and the current response over every path of the connection operations',
  'Exhaustive over the paths of the class for one thread; a callback from a response is taken not to re-enter the connection loop.')

P('C11', 'In-memory entity data is consistent under concurrent use',
  'Every operation of the in-memory OData container looks at and changes entities, streams and links only while it '
  'holds the container lock. An operation that checks something before changing the data (a key that must be new, a link that '
  'must be absent, an entity that must exist) keeps the lock from the check to the change, so no other thread can make '
  'the check untrue in between.',
  ['schedules', 'histories'], 'every interleaving of operations of any number of threads on one container',
  'a lost update or double insert needs a switch between two particular statements; tests run one thread',
  ['odata2/memds.py'],
  [('entity storage', 'odata2/memds.py:InMemoryEntityStore'), ('association index', 'odata2/memds.py:InMemoryAssociationIndex'),
   ('collections', 'odata2/memds.py:EntityCollection')],
  'lockset analysis of the shared fields, found from the source, through the call graph; atomic sections (no release between check and change)',
  'Exhaustive over the paths of the module. Locking through other means than the container lock would be reported.')

P('C22', 'The shared state of the HTTP client is used under its locks',
  'The HTTP request manager reads and changes its tables of active and idle connections, credentials, cached names and '
  'connection ids only while it holds its lock, and the header table of a message only under the lock of the message. A connection '
  'that changes between active and idle does so in both tables of each kind in one step, waiting threads are '
  'told when one becomes free, and no connection is created once the manager is closing. The lock is not held while waiting for the network.',
  ['schedules', 'histories'], 'every interleaving of threads that queue, process, clean up and close',
  'each fault needs several threads and a switch at a particular point',
  ['rfc2616.py'],
  [('request manager', 'rfc2616.py:HTTPRequestManager'), ('message headers', 'rfc2616.py:HTTPMessage')],
  'lockset analysis through the call graph; path-sensitive event pairing per critical section',
  'Exhaustive over the paths of the module; reads of a single field by a thread that owns the connection are outside.')

P('C12', 'Links in the in-memory store are mirrored, complete and within bounds',
  'In the in-memory OData store a link between two entities can be followed from one end exactly when it can be followed '
  'from the other; deleting an entity removes all its links, its stream and the entities that require it. A link is only '
  'made to an entity that exists, never beyond what the multiplicity of either end allows, and a required link is never removed on its own. '
  'Inserting an entity never replaces an existing one and happens only after its required links were checked.',
  ['inputs', 'histories'], 'every sequence of inserts, updates, deletes, link, unlink and replace operations, for every multiplicity',
  'a stale link shows only for particular shapes of links and multiplicities after several operations',
  ['odata2/memds.py'],
  [('association index', 'odata2/memds.py:InMemoryAssociationIndex'), ('entity storage', 'odata2/memds.py:InMemoryEntityStore'),
   ('navigation', 'odata2/memds.py:NavigationCollection')],
  'abstract execution of each operation over symbolic keys: effects on both directions of the index compared at every exit; facts of existence, emptiness and multiplicity at every change',
  'Exhaustive over the paths of the module; the multiplicities given by the metadata layer and the existence of the entity that owns a collection are taken as given.')

P('C07', 'The database connection pool neither leaks, shares nor exceeds its connections',
  'A connection acquired from the pool of the SQL layer is in exactly one place at any time: in use by the thread it was '
  'given to, unused, set aside, or closed; it is given back on every way out of the code that acquired it. The locks of the pool are '
  'taken and released in equal measure on every path, errors and time-outs included, and never more connections than the limit '
  'are open in use or unused. Closing waits only where the thread waited for can release its connection, and comes to an end.',
  ['schedules', 'histories', 'inputs'], 'every interleaving of threads that acquire, release, time out and close, and every error from the database',
  'no test of the suite opens a database; a leaked lock shows only after a failed connection or time-out and stops later threads',
  ['odata2/sqlds.py'],
  [('connection pool', 'odata2/sqlds.py:SQLEntityContainer.AcquireConnection'), ('release', 'odata2/sqlds.py:SQLEntityContainer.ReleaseConnection'),
   ('shutdown', 'odata2/sqlds.py:SQLEntityContainer.close')],
  'typestate of the connection in hand and lock counting along every path of the pool operations; exit obligations at callers; lockset of the pool tables',
  'Exhaustive over the paths of the pool operations; acquiring and releasing a lock, closing a connection and moving it between tables are taken not to raise.')

P('C31', 'Query options decide what every way of reading a collection returns',
  'Counting an OData collection respects its filter; looking an entity up by key respects filter, expand and select; iterating also respects '
  'the order; reading a page also top, skip, skip token and the page limit; a navigation collection always keeps to the entities linked to its source. '
  'The filter and the order are worked out from complete entities, before unselected properties are dropped, and only entities for which the filter is true (not unknown) pass. '
  'What a collection keeps to answer faster is dropped when an option it depends on changes.',
  ['inputs', 'histories'], 'every combination and sequence of option settings, on every kind of collection (in-memory, SQL, client, expanded)',
  'options interact: a fault needs a particular pair of options, or an option changed between two reads, on one of many kinds of collection; the SQL ones are never run by the suite',
  ['odata2/csdl.py', 'odata2/core.py', 'odata2/memds.py', 'odata2/sqlds.py', 'odata2/client.py'],
  [('common collection', 'odata2/csdl.py:EntityCollection'), ('in-memory collections', 'odata2/memds.py:EntityCollection'),
   ('SQL collections', 'odata2/sqlds.py:SQLCollectionBase'), ('client collections', 'odata2/client.py:ClientCollection')],
  'taint-like dataflow of each option and of the entities through every path and generator of every class of collection; dependency tracking of kept values',
  'Shows that each option is put to use on every path that returns entities, not that the code using it computes the right thing.')

P('C10', 'Whatever opens a collection of entities closes it',
  'Code of the library that opens a collection of entities (and with it a database connection) closes it, or hands it to its caller or to an object whose own close '
  'closes it, on every way out, errors included. A collection whose construction fails gives back what it had acquired, and can be closed at any moment of its construction. '
  'The server closes the collection a request identified once the response has been made, whatever became of the request.',
  ['inputs', 'fault_sequences', 'histories'], 'every request, every error raised by the data source between opening and closing',
  'a collection left open shows only when the pool runs dry much later; the error paths are many and none is tested with a data source that holds connections',
  ['odata2/csdl.py', 'odata2/core.py', 'odata2/memds.py', 'odata2/sqlds.py', 'odata2/client.py', 'odata2/server.py'],
  [('requests', 'odata2/server.py:Server.HandleRequest'), ('navigation', 'odata2/csdl.py:DeferredValue.GetEntity'),
   ('SQL collections', 'odata2/sqlds.py:SQLCollectionBase')],
  'typestate of opened collections followed as values along every path of the functions that open or receive them; exit obligations, also for constructors',
  'Exhaustive over the paths of the functions concerned, with any call taken to be able to raise except close; generators abandoned by their consumer are not judged.')

P('C34', 'The server applies the options of a request to the collection it answers with',
  'When an OData request for a collection is answered, the values the request gives for $filter, $orderby, $expand, $select, $top, $skip, $skiptoken and $inlinecount, each in its own role, '
  'and the page limit of the server have been applied to that collection before any of it is read, in every response format; the links of an entity are subject to the paging options and $inlinecount, a $count to $filter. '
  'Entities and links are read by page, never whole, and the link to the next page carries the filter, order, expand, select and remaining top of the page. '
  'Options that a request for a collection may not carry have been refused before the collection is handed on.',
  ['inputs'], 'every combination of system query options in a request for a collection, its links or its count, and every response format',
  'options are combined freely by clients, a dropped or exchanged option shows only for particular combinations, formats and amounts of data',
  ['odata2/server.py', 'odata2/core.py'],
  [('requests', 'odata2/server.py:Server.HandleRequest'), ('identification', 'odata2/server.py:Server.GetResource'),
   ('next page', 'odata2/core.py:EntityCollection.GetNextPageLocation')],
  'taint of each option value from the request to the setter of the collection; must-have-been-applied facts at each place, found by effect inference, where the collection is read',
  'Exhaustive over the paths of handling a request for a collection; what the collection does with an option is C31.')

P('C23', 'Credentials reach only the servers they are for',
  'The HTTP client sends an Authorization header only with credentials looked up for the address of the request or for a challenge to it, whose test compared protection space and path, or scheme, '
  'protection space and realm; a redirect to another root goes without the header it had. Credentials the server refused are removed, and one response makes a request be sent again at most once. '
  'A 302 or 307 response repeats only GET and HEAD, a relative location is resolved first, and headers the server may leave out are checked before use.',
  ['inputs', 'histories'], 'every response status, method, set of stored credentials, challenge and location a server can send',
  'a leak needs a second server, a redirect and stored credentials in combination; tests use one server that behaves',
  ['rfc2616.py', 'rfc2617.py'],
  [('end of a request', 'rfc2616.py:HTTPRequest.Finished'), ('look-ups', 'rfc2616.py:HTTPRequestManager.FindCredentials'),
   ('tests', 'rfc2617.py:Credentials.MatchChallenge')],
  'abstract interpretation of the end of a request for each status, method and state of credentials; provenance of the Authorization header; must-compare facts at the returns of the tests',
  'Exhaustive over paths; that comparing two protection spaces compares scheme, host and port is the business of the URI class.')

P('C16', 'Parsers come to an end, and do not take the end of the input for a character',
  'Whatever the input, every loop of the XML parser, the HTTP header parsers, the OData expression and option parser and the regular expression parser consumes input, changes something its end depends on, or leaves; '
  'at the end of the input none of them uses the missing current character as a string. '
  'No other loop of the package repeats without changing anything its end depends on.',
  ['inputs'], 'every text given to the parsers, in every parsing mode, and every state in which a loop is entered',
  'a hang needs the one malformed text, option or position that no test contains; a test that hangs proves nothing about the next text',
  ['xml20081126/parser.py', 'rfc2616_core.py', 'rfc2616_headers.py', 'rfc2616_params.py', 'rfc2617.py', 'odata2/core.py', 'xsdatatypes20041028.py', 'unicode5.py'],
  [('content', 'xml20081126/parser.py:XMLParser.ParseContent'), ('attribute values', 'xml20081126/parser.py:XMLParser.ParseAttValue'),
   ('headers', 'rfc2616_core.py:WordParser._InitParser'), ('expressions', 'odata2/core.py:Parser.ParseCommonExpression')],
  'interprocedural summaries of how far each parsing method moves, by current character or end of input; two rounds of a loop without a move are a loop without end',
  'Exhaustive over paths, with progress counted up to five characters; a changed variable is taken to be progress, so a bound that is never reached by changing it is not detected.')

P('C25', 'A content package writes and removes only files in its own directory',
  'Whatever names an archive, a manifest, a resource or a caller supplies, a content package makes, writes, copies to and removes only files and directories found, after normalising the path, to lie inside the directory of '
  'the package. A path outside, or the directory itself where a file is needed, is refused first. Unpacking and copying in never write to a path found in use.',
  ['inputs'], 'every archive entry name, reference and path, relative, absolute or with navigation segments',
  'escaping needs a hostile name at one of several places; tests unpack and copy well-behaved packages',
  ['imscpv1p2.py'],
  [('unpacking', 'imscpv1p2.py:ContentPackage.ExpandZip'), ('copying in', 'imscpv1p2.py:ContentPackage.FileCopy'),
   ('deleting', 'imscpv1p2.py:ContentPackage.DeleteFile'), ('containment test', 'imscpv1p2.py:PathInPath')],
  'abstract interpretation of path values (package directory, inside, relative, normalised, unknown) along every path to each file-system effect; must-equal facts at the answers of the containment test',
  'Exhaustive over paths of the package class; symbolic links are not resolved. The archive a caller asks to export to and the manifest document are not covered.')

P('C26', 'Temporary directories are removed, and open files closed, on every path',
  'When opening a content package fails, at whatever point, or the package is closed, the temporary directory made for it is removed; a directory that was not made as a temporary one is never removed. '
  'Files and archives a content package opens, and files opened to write documents and character tables, are closed however control leaves.',
  ['fault_sequences', 'inputs'], 'every error at any call while a package is opened, unpacked, exported or a file is written',
  'a leak or a removed directory needs an error at one particular call; tests open packages that open',
  ['imscpv1p2.py', 'xml20081126/structures.py', 'unicode5.py'],
  [('opening', 'imscpv1p2.py:ContentPackage.__init__'), ('closing', 'imscpv1p2.py:ContentPackage.Close'),
   ('documents', 'xml20081126/structures.py:Document.Create')],
  'typestate of the temporary directory, its flag and each opened file along every path, any call taken to be able to raise',
  'Exhaustive over paths; close and rmtree are taken not to raise. Files held open by XML entities are not judged.')
P('C28', 'A tool launch succeeds only when it was signed by the consumer it names',
  'A learning-tools launch is accepted only after the protocol version has been checked and the signature verified with the secret of the consumer that the request names; a failed verification always refuses the launch. '
  'A nonce is taken as new only if it has not been seen with that consumer, is then recorded, and is forgotten only after 90 minutes. '
  'Consumers are stored only under keys not in use, and generated secrets come from the system\'s random source.',
  ['inputs', 'histories'], 'every launch request, every history of nonces and consumers',
  'a forged or replayed launch takes a crafted request after particular others; no test can construct the classes without the OAuth package',
  ['imsbltiv1p0.py'],
  [('launch', 'imsbltiv1p0.py:BLTIToolProvider.Launch'), ('nonces', 'imsbltiv1p0.py:BLTIConsumer.CheckNonce'),
   ('keys', 'imsbltiv1p0.py:BLTIToolProvider.GenerateKey')],
  'abstract interpretation of every path with the results of verification, lookup and comparison tracked as provenance',
  'Exhaustive over paths. The oauth package, not present, is trusted to verify signatures and to look the nonce up while doing so.')
P('C19', 'Data written into an XML document cannot become markup',
  'Every piece of data or attribute value that writing an XML document or element puts out has passed through the escape function in use, as a quoted value where it is one, and that function is handed on to whatever is written inside. '
  'The escape functions let no < or & through, no quotation mark that ends an attribute value, no ]]> that ends a section, and the 7-bit one no character above 127.',
  ['inputs', 'programs'], 'every document, element type, attribute value and character',
  'only values with particular characters in particular places go wrong; tests write a few fixed documents',
  ['xml20081126/structures.py', 'xmlnames20091208.py'],
  [('elements', 'xml20081126/structures.py:Element.GenerateXML'), ('namespaces', 'xmlnames20091208.py:XMLNSElement.GenerateXML'),
   ('escaping', 'xml20081126/structures.py:EscapeCharData'), ('sections', 'xml20081126/structures.py:EscapeCDSect')],
  'provenance analysis of what reaches the output; symbolic character classes through the escape functions',
  'Exhaustive over paths and character classes. Names of elements and attributes, and what subclasses outside the two modules write themselves, are not judged.')
P('C17', 'The XML parser accepts only what the grammar of XML allows',
  'While checking for well-formedness, and with the SGML options off, every construct of XML is accepted only when the text read is one its production in XML 1.0 allows, and an error once raised is never swallowed. '
  'In addition an end tag must name its start tag, an attribute may not be repeated, a character reference must be legal, and an entity is included only if it is declared where it must be, parsed, not already open and, in an attribute value, internal. '
  'Nothing may follow the document.',
  ['inputs'], 'every document, declaration and external subset',
  'each wrong acceptance needs a document malformed in one particular way; a suite samples some of them',
  ['xml20081126/parser.py'],
  [('elements', 'xml20081126/parser.py:XMLParser.ParseElement'), ('tags', 'xml20081126/parser.py:XMLParser.ParseSTag'),
   ('references', 'xml20081126/parser.py:XMLParser.ParseEntityRef')],
  'inclusion of what each parsing method accepts in the language of its production, by abstract interpretation with the automaton of the production as the state',
  'Exhaustive over paths, with one automaton per production (60 productions). The legality of single characters outside references, the encoding declaration against the encoding, and the balance of nested ]]> are not judged; ParseLiteral, ParseS, ParseName and NextChar are trusted.')
P('C29', 'Assessment operators pass NULL on, and check what they are given',
  'An operator of an assessment\'s response or outcome processing refuses operands of the wrong number, base type or cardinality with a processing error, and raises nothing else. '
  'Given a NULL operand it gives NULL of its result type, except where QTI defines the result regardless (and, or, anyN, isNull, containerSize, multiple, ordered). '
  'Results have the base type and cardinality QTI defines, and comparisons and the logical operators have the value QTI defines.',
  ['inputs'], 'every operator, and every base type, cardinality, NULL state and order of its operands',
  'there are some 60,000 combinations of kinds of operands; the suite tries a handful per operator, with short lists of operands',
  ['qtiv2/expressions.py', 'qtiv2/variables.py'],
  [('operators', 'qtiv2/expressions.py:NOperator'), ('checking operands', 'qtiv2/variables.py:CheckBaseTypes'),
   ('what is NULL', 'qtiv2/variables.py:Value.IsNull')],
  'abstract interpretation of every operator over the kinds of its operands, compared with a table of what QTI defines',
  'Exhaustive over kinds, for up to three operands. Values are opaque: the numbers arithmetic gives, patterns, shapes, tolerance and rounding are not judged.')

P('C13', 'Query expressions treat NULL, types and numbers of arguments as defined',
  'An operator or method of a query expression refuses operands of the wrong type and wrong numbers of arguments with an evaluation error, and nothing else is raised on account of what kind of operands it has. '
  'NULL gives NULL in arithmetic and methods and false in comparisons and logic, two NULLs are equal, and a filter that is NULL or false leaves the entity out. '
  'Results have the promoted type, and comparisons, logic, rounding direction and string methods are those the protocol defines.',
  ['inputs'], 'every operator and method, and every type, NULL state and order of its operands',
  'there are some 26,000 combinations of kinds of operands; the suite evaluates a few literal expressions for each operator, hardly ever with a NULL of a type',
  ['odata2/core.py'],
  [('operators', 'odata2/core.py:BinaryExpression'), ('methods', 'odata2/core.py:CallExpression'), ('promotion', 'odata2/core.py:PromoteTypes'),
   ('filters', 'odata2/core.py:EntityCollection.CheckFilter')],
  'abstract interpretation of every operator and method over the kinds of its operands, compared with a table of what the protocol defines',
  'Exhaustive over kinds. Values are opaque: the numbers arithmetic gives, and values beyond the range of a type, are not judged, nor are cast, isof and operands of type SByte.')

P('C32', 'HTTP messages end where the rules of HTTP say they end',
  'The HTTP client reads no body after HEAD or with status 1xx, 204 or 304; otherwise the body is what chunked coding, Content-Length or the close of the connection delimits, in that order of precedence, and exactly its octets are delivered. '
  'A response that the server cuts short is reported as failed, with an error and without its status. '
  'The octets sent as the body of a request are exactly those its Transfer-Encoding or Content-Length header announces, or sending fails.',
  ['inputs', 'fault_sequences'], 'every kind of status, method and framing header, every length of body and of chunk, every point at which the server hangs up, every way a stream divides a body',
  'which octet belongs to which message depends on combinations of status, method and headers and on where a connection breaks; the suite plays a handful of complete exchanges',
  ['rfc2616.py'],
  [('transfer length', 'rfc2616.py:HTTPMessage.CalculateTransferLength'), ('reading', 'rfc2616.py:HTTPResponse.RecvLine'), ('reading', 'rfc2616.py:HTTPResponse.RecvBytes'),
   ('hang-up', 'rfc2616.py:HTTPResponse.ServerDisconnect'), ('sending', 'rfc2616.py:HTTPRequest.ReadRequestBody')],
  'abstract interpretation of the reader and the sender over messages made of literal octets and stretches of data with symbolic lengths, compared with the framing rules of RFC 2616',
  'Lengths are symbols, so a verdict holds for every length; up to two chunks or helpings are followed. That the connection gives the reader the octets it asks for is taken for granted, as is the parsing of header values; multipart/byteranges is not judged.')

P('C33', 'Query expressions translated to SQL keep their meaning',
  'When the SQL layer translates a filter or an order, each operator becomes the SQL operator of the same meaning, its operands in the same places and bracketed wherever SQL would group them differently; each method becomes the SQL function of the same meaning, its arguments in their roles and positions counted from 0. '
  'What has no translation is refused. '
  'An order names its columns with their directions, a skip token selects exactly the rows that come after it, and filter, keys and skip token are joined as conditions of their own.',
  ['programs', 'inputs'], 'every operator and method, alone and inside every operator or method that can take it, every kind of collection, every combination of directions of up to three columns',
  'operators nest without limit and a wrong grouping or a swapped argument is still valid SQL that selects the wrong rows; the suite translates a few flat filters',
  ['odata2/sqlds.py'],
  [('operators', 'odata2/sqlds.py:SQLCollectionBase.SQLExpressionGenericBinary'), ('grouping', 'odata2/sqlds.py:SQLCollectionBase.SQLBracket'), ('methods', 'odata2/sqlds.py:SQLCollectionBase.SQLExpressionSubstring'),
   ('skip tokens', 'odata2/sqlds.py:SQLCollectionBase.WhereSkiptokenClause'), ('conditions', 'odata2/sqlds.py:SQLCollectionBase.WhereClause')],
  'partial evaluation of the translating source over expressions with opaque operands; the resulting text is parsed by the grammar and precedences of SQL and compared with the expression it came from',
  'How SQL treats NULL, wildcards in the data of LIKE, and overflow is not judged. Sources the evaluation does not understand are counted as undecided, not reported.')

# ---------------------------------------------------------------- not decided by static analysis here
P('C40', 'A value written as a literal and read back is the same value',
  'Every date, time, duration, number, string and binary value that the library writes as text, in a URI, in XML or in JSON, is the same value when the text is read back.',
  ['inputs'], 'every value of every primitive type', 'the suite samples values',
  ['iso8601.py', 'odata2/csdl.py', 'odata2/core.py'], [('literals', 'odata2/csdl.py:EDMValue'), ('dates', 'iso8601.py:TimePoint')],
  na='An equality of values through two functions (formatting and parsing, with arithmetic and library conversions between); no sound static rule in reach relates the two for all values.')
P('C41', 'Following the next links of a paged collection yields each entity once',
  'Reading a collection page by page, following each page\'s next link, yields every entity of the collection exactly once and in its order.',
  ['inputs', 'histories'], 'every collection, page size and ordering', 'depends on the data and the page size',
  ['odata2/memds.py', 'odata2/sqlds.py'], [('paging', 'odata2/memds.py:EntityCollection'), ('tokens', 'odata2/sqlds.py:SQLEntityCollection')],
  na='A partition of a run-time sequence: whether the skip token of one page selects exactly what the page before left out is a relation between values of rows. What can be decided, that every option reaches what selects and orders the entities, is C31.')
P('C42', 'An ordered collection is in the order asked for',
  'Reading a collection with an order yields the entities in exactly that order, ties broken by the key.',
  ['inputs'], 'every collection and order', 'depends on the data',
  ['odata2/core.py', 'odata2/memds.py'], [('ordering', 'odata2/core.py:EntityCollection')],
  na='Depends on how run-time values compare and on the data; only the flow of the option into the sort is static (C31).')
P('C43', 'Every request of the HTTP client ends in bounded time',
  'A request ends, with a response or an error, after a bounded time whatever the server sends: however it delays, redirects or truncates.',
  ['inputs', 'schedules'], 'every server behaviour', 'a server can misbehave in endless ways',
  ['rfc2616.py'], [('requests', 'rfc2616.py:HTTPRequestManager'), ('connections', 'rfc2616.py:HTTPConnection')],
  na='Times, and the number of redirects, depend on what the server sends; there is no static bound. The lock and queue discipline that ending rests on is decided by C11, C22 and C24.')
P('C44', 'Migrated items keep their content and their scoring',
  'A version 1.2 item that is migrated without a logged problem presents the same content and gives the same score to the same response as the original.',
  ['inputs'], 'every item', 'only a few sample items have expected outputs',
  ['qtiv1/core.py', 'imsqtiv1p2p1.py'], [('migration', 'imsqtiv1p2p1.py:QTIDocument')],
  na='An equivalence of two documents under two processing models; there is no static oracle for it, and version 1 has no implementation of processing to compare with.')
P('C45', 'A document written as XML and parsed again is the same document',
  'Every document that can be built through the library, written as XML and parsed again gives an equal document; every document XML allows is accepted.',
  ['inputs'], 'every document', 'the suite samples documents',
  ['xml20081126/structures.py', 'xml20081126/parser.py'], [('writing', 'xml20081126/structures.py:Document'), ('parsing', 'xml20081126/parser.py:XMLParser')],
  na='Equality through two programs on unbounded trees. The two halves that have static rules are claimed: data cannot become markup (C19) and nothing outside the grammar is accepted (C17).')
