import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
RE='scheduler/backend/executors/remote_executor.py'; MD='scheduler/schema/metadata.py'; EC='scheduler/backend/execution_context.py'
RW='scheduler/handers/rewrite_hander.py'; CL='scheduler/handers/clause/'; TB='scheduler/handers/table.py'; EN='scheduler/crypto/encrypt.py'
PD='dbutils/pooled_db.py'; SD='dbutils/steady_db.py'; H='handler.py'; CR='controller/rewriter.py'; DH='scheduler/handers/decrypt_handler.py'
NOT='The reliable tests only parse and tokenise SQL text; '
p('C01','Concurrent clients see one ordinary, unencrypted database',
 'For tables created through the proxy with any mix of encrypted and plain columns, every supported create, drop, insert, select, update and delete that clients send concurrently takes effect atomically at some instant between its request and its answer. Every answer (rows, values, column names, order where an order is asked for) is the one an ordinary unencrypted database would give executing the statements in that order. While nothing fails, no supported statement on an existing table is refused.',
 ['schedules','histories','inputs','configurations'],
 'every interleaving of concurrent requests, every history of supported statements (equality, int ranges, and/or, like on searchable columns, order by, limit, distinct, max/min/count, joins, nested select), every choice of encrypted/searchable columns and of int, float, double, char and varchar values',
 NOT+'none starts the proxy, a back end or a second client, so no test sees even one encrypted round trip, let alone concurrent ones.',
 [H,CR,EC,RE,RW,CL+'*.py',TB,DH,EN],
 [('rewrite statements to the encrypted schema',RW),('commit per statement, one pooled session per request',RE+':RemoteExecutor.call'),('decrypt by selected-column state',DH)],
 ['HTTP answers of /query, /jdbc_query'])
p('C02','Acknowledged writes are durable and applied exactly once',
 'An insert, update or delete answered with success has been applied exactly once and stays applied after any later loss of connections, restart of the back end, or crash and restart of the proxy. One that was answered with an error, or never answered, has been applied either once and completely or not at all.',
 ['fault_sequences','crash_points','schedules','histories'],
 'every sequence of connection losses (before or after the server executes), refused connects, back-end restarts and proxy crashes, at every point of every concurrent history of writes',
 NOT+'losing an answer between execution and commit, or crashing there, needs a back end and a fault at a chosen instant.',
 [RE,SD,PD,H],
 [('explicit commit after execute',RE+':RemoteExecutor.call'),('retry on a fresh connection only outside transactions',SD+':SteadyDBCursor'),('rollback when a session is returned',PD+':cache')],
 ['HTTP answers and the back end tables read back through the proxy at the end'])
p('C03','Success is never reported for work the back end refused',
 'When the back end refuses a statement of a request (disk full, lock wait timeout, deadlock victim, privilege error, read-only server, duplicate key, or any other server error), the client receives an error answer and not a success; no part of the refused statement is visible afterwards. A request answered with an error by mistake is not hidden either: once the back end accepts statements again, the same request succeeds.',
 ['fault_sequences','schedules','histories'],
 'every server error code injected into any statement (including commits and the statements that prepare an answer) of any concurrent request, for every statement kind: create, drop, insert, select, update, delete, bulk load',
 NOT+'a server error at a chosen statement of a chosen request cannot be provoked without a scripted back end.',
 [RE,H,CR,SD],
 [('execute/commit error handling',RE+':RemoteExecutor.call'),('error to HTTP status mapping',H+':BasePostRequestHandler.post')],
 ['HTTP status and body, final back end and catalog state'])
p('C04','Protected data never reaches the back end in clear',
 'No statement or parameter sent to a back-end database ever contains the name of a table created through the proxy, the name or encryption key of an encrypted column, or the clear text of a value written to, assigned to or compared with an encrypted column. This holds for any statement text a client sends, supported or not: a statement the proxy cannot protect is refused instead of being forwarded.',
 ['inputs','schedules','fault_sequences','histories'],
 'every statement text (all comparison operators, null tests, functions, grouping, multi-row inserts, bulk loads, nested selects and joins), concurrent with creation, dropping and re-creation of the tables it names, with and without injected failures and retries',
 NOT+'they never look at what a back end receives, and the leak depends on unsupported operators or on catalog changes racing with the rewriting.',
 [RW,CL+'*.py',TB,RE,EN],
 [('per-clause rewriting against the catalog',RW),('column encryption of literals',CL+'sql_where.py, sql_values.py, sql_set.py'),('encrypted schema',TB)],
 ['every statement and parameter arriving at the simulated back end'])
p('C05','The catalog survives a proxy crash at any point',
 'After the proxy crashes at any instant and restarts, every table whose creation was acknowledged and not later dropped can be queried with all its acknowledged rows, and every table whose drop was acknowledged is gone. A table whose create or drop was interrupted is either completely usable or completely absent, and can then be created again and used normally.',
 ['crash_points','schedules','histories'],
 'a crash at every point (between any two instructions or messages) of every concurrent history of create, drop, re-create, insert and select, one or several crashes per history',
 NOT+'none creates a table, and a crash between the back end and the metadata store needs a controlled process death.',
 [MD,TB,RE],
 [('catalog persisted one row per column in the metadata store',MD+':update_db_meta'),('catalog loaded at start',MD+':load_delta'),('back-end DDL',RE)],
 ['answers of the restarted proxy'],state=[('catalog','clear table/column to anonymous names and keys',MD+':Delta.meta')])
p('C06','A running proxy and a freshly started one agree on the catalog',
 'Whenever no request is in flight, a freshly started proxy treats every statement exactly as the running proxy does: the same tables are known, with the same columns, keys and back-end tables. Concurrent creates, drops and queries, duplicate creates of an existing table, and failures of the metadata store or the back end during them never make the two differ and never make an existing table or its rows inaccessible.',
 ['schedules','fault_sequences','histories'],
 'every interleaving of concurrent creates (including if not exists and duplicates), drops, inserts and selects, with any failure of the metadata store (refused, lost before or after execution, server errors) or of the back end at any statement',
 NOT+'the catalog is never built, raced or reloaded in a test.',
 [MD,TB,RE,CL+'sql_clause.py'],
 [('catalog updates in memory and in the metadata store',MD+':update_delta, delete_delta'),('singleton construction',MD+':Delta.__new__')],
 ['answers of probe requests before and after a restart, metadata rows'])
p('C07','The answer to a request depends on that request alone',
 'With the set of tables unchanged, what the proxy makes of a request (the rewritten statement, the reported column names and types, the decrypted values) is the same whatever other requests, valid or failing, run before it or at the same time. In particular names, keys, columns and literals of one request never appear in the handling of another.',
 ['schedules','histories','inputs'],
 'every interleaving of concurrent requests over all endpoints that rewrite or run a statement, on tables of different clients with different columns and keys, including malformed and refused requests',
 NOT+'they call the parser from one thread; shared parser, rewriter and singleton state only matters when requests overlap.',
 [H,RW,CL+'sql_clause.py',MD,RE,EC,'sql_parsing/__init__.py'],
 [('rewriter built per request',CL+'sql_clause.py'),('parser serialised by a lock','sql_parsing/__init__.py')],
 ['HTTP answers and the statements each request sends, against those of the same request run alone'])
p('C08','A request uses exactly the server, database and account it names',
 'A request is executed only on the host, port and database it names (directly or through a stored data source as that data source is currently defined) and only on connections authenticated with exactly the user and password it carries. A request whose credentials the back end does not accept never succeeds, even when the same user with the right password is being served at the same time.',
 ['schedules','histories','inputs','configurations'],
 'every mix of concurrent requests to several servers, ports, databases, users and right, wrong or changed passwords, including names that are prefixes or concatenations of each other, and data sources changed between requests',
 NOT+'no connection is opened in any test, and confusion needs two different targets in one process.',
 [RE,H,CR,PD],
 [('pool per connection identity',RE+':connect_db'),('data source lookup',H)],
 ['server, database and account of the session that executes each statement; HTTP answers'])
p('C09','Every decryption ticket belongs to exactly one query',
 'Each successfully converted query gets a ticket no other query ever gets, whatever the clock does and however many queries are converted at the same instant. Decrypting rows under a ticket yields exactly the columns and values of the query that ticket was issued for, in any order and at any later time of the same process; a ticket that was never issued yields no data.',
 ['schedules','histories','fault_sequences'],
 'every interleaving of concurrent conversions and decryptions over tables with different columns and keys, with clocks that stall, jump backwards or forwards',
 NOT+'issuing two tickets in the same millisecond or across a clock step is not something a test controls.',
 [EC,CR,H,DH],[('ticket table',EC+':id_sql_map')],['answers of the ticket-issuing and decrypting endpoints'],
 state=[('ticket table','ticket to selected columns, types, tables, cipher states',EC+':id_sql_map')])
p('C10','Back-end sessions are used by one request at a time and returned clean',
 'At no instant is one database session (to a back end or to the metadata store) used by two requests at once, and a request never runs on a session carrying another request\'s open transaction, locks, old snapshot or unread rows. Once no request is in flight, no session holds a transaction or a lock, and every session opened is either kept for reuse within the pool\'s bounds or closed, also when requests fail or connections are lost.',
 ['schedules','fault_sequences','histories'],
 'every interleaving of concurrent requests, successful, failing and refused, with any injected connection loss, server error or slow statement',
 NOT+'no session exists in any test; overlap, leak and leftover state depend on schedules and failures.',
 [RE,PD,SD,MD,H],
 [('session borrowed per request and returned with rollback',PD+':cache'),('metadata connection',MD+', '+H)],
 ['calls arriving at the driver boundary; session state at the server'])
p('C11','Every request gets one answer, and service recovers when faults stop',
 'Every HTTP request receives exactly one complete answer within bounded time, whatever other requests do and whatever failures of back end or metadata store occur while it runs (as long as the back end eventually answers or closes connections). Once failures stop, every supported request succeeds again within bounded time without restarting the proxy.',
 ['schedules','fault_sequences','histories'],
 'every interleaving of concurrent requests (valid, malformed, refused, oversized mixes) with any finite sequence of connection losses, refused connects, restarts, stalls and server errors of back end and metadata store',
 NOT+'no test issues an HTTP request; hangs, double answers and failure to recover need controlled schedules and faults.',
 [H,'service.py',RE,PD,SD,MD],
 [('error answers from the request handlers',H+':post'),('reconnection of pooled sessions',SD+':_ping_check'),('reconnection of the metadata session',MD+':test_connection')],
 ['HTTP answers in virtual time'])
p('C12','A bulk load reports success only if every row is in exactly once',
 'When a bulk load of a file is answered with success, the table contains every row of the file exactly once in addition to what it held, and every value of every encrypted or plain column reads back as in the file. When it fails it is answered with an error, and afterwards no row of the file is present twice or altered, and the rows present are those of whole chunks (20 000 rows as shipped) from the start of the file: of a chunk that failed nothing is present.',
 ['fault_sequences','schedules','inputs','configurations'],
 'every file content over the supported column types and encryption choices, read in any number of chunks, with other clients active and any loss of connection, server error or file read error at any row',
 NOT+'bulk loading is not exercised at all, and the losses need a connection replaced in the middle of a chunk.',
 [RE,CR,EC,SD],[('chunked load with one commit per chunk',RE+':batch_insert')],['HTTP answer and the table read back through the proxy'])
p('C13','Sums and averages over protected columns are exact',
 'SUM and AVG over an integer column protected for arithmetic, with or without a condition, equal the exact sum and the average (to four decimals) of the selected values at one single instant between request and answer. This holds under concurrent writers and concurrent aggregates on the same or other tables, and when connections are lost or the back end restarts during the request it either still holds or the request is answered with an error.',
 ['schedules','fault_sequences','inputs','histories'],
 'every non-empty set of integer values, every interleaving with inserts, updates of other rows, deletes and other aggregates, every loss of connection between the statements of one aggregate',
 NOT+'the aggregate is computed by several dependent statements in one session, which no test runs.',
 [MD,RE,DH,EN],[('session variables accumulating ciphertexts',MD+':set_sum_feature'),('homomorphic decryption',EN+':HomomorphicCipher')],['HTTP answers'])
p('C14','A pooled connection is lent to one borrower unless sharing is safe',
 'A connection borrowed from the pool as dedicated is lent to nobody else until it is given back, exactly once however often and by whomever it is closed. A shareable connection is only ever lent to further borrowers while no borrower has a transaction open on it, and it goes back to the pool only after its last borrower gave it back.',
 ['schedules','histories','configurations'],
 'every interleaving of threads borrowing, beginning, committing, rolling back, closing (also twice) and dropping connections, for every pool configuration and driver thread-safety level',
 NOT+'there is no test of the pool.',
 [PD],[('condition variable guarding idle and shared lists',PD+':PooledDB')],['driver calls by borrower'],
 state=[('idle list','connections free for lending',PD+':_idle_cache'),('shared list','connections lent as shareable',PD+':_shared_cache')])
p('C15','The pool keeps to its configured limits',
 'At every instant the number of lent connections never exceeds the configured maximum, no more idle connections are kept than configured, and no connection is shared by several borrowers before the configured number of shareable connections is in use or the maximum is reached. A non-blocking pool refuses with its too-many-connections error exactly when the maximum is in use (or, for a shareable request, all shareable connections are in use) and no connection in use may be shared because each is dedicated or in a transaction, and never otherwise.',
 ['schedules','histories','configurations','fault_sequences'],
 'every interleaving of borrowing, returning, failing connects and pool closing over all combinations of minimum/maximum cached, shared and total connections',
 NOT+'there is no test of the pool, and over-commitment needs racing borrowers and failing connects.',
 [PD],[('counter of lent connections',PD+':_connections')],['number of live raw connections and lent handles'])
p('C16','A blocking pool serves every waiter and never loses capacity',
 'In a blocking pool, a borrower waits only while the maximum is in use; whenever a connection is given back (however it is given back) a waiting borrower obtains one, so if every borrower eventually returns what it holds, every borrower is eventually served. Failed connects, lost connections and abandoned connections never reduce the number of connections the pool can lend later.',
 ['schedules','fault_sequences','histories','configurations'],
 'every interleaving of more threads than connections, with connects that fail, connections that die, shareable and dedicated requests mixed, and connections closed, dropped or returned inside a transaction',
 NOT+'there is no test of the pool; lost wake-ups only show under particular schedules with failures.',
 [PD],[('wait and notify on the pool condition',PD+':_wait_lock, cache, unshare')],['progress of all borrower threads'])
p('C17','A borrowed connection starts clean and configured',
 'A borrower never receives a connection with an open transaction or uncommitted work of an earlier borrower: work not committed before a connection was given back is rolled back (with the reset setting off, at least the work of transactions started with begin). Every raw connection on which a borrower\'s statement runs has had all configured session-preparation commands executed on it exactly once before, also after reconnection, and a connection found dead when fetched is replaced whenever the server accepts connections.',
 ['schedules','fault_sequences','histories','configurations'],
 'every interleaving of borrowers and every sequence of lost connections, failing rollbacks, failing session preparations and reconnections, for all ping, usage-limit and reset settings that promise it',
 NOT+'there is no test of the pool or of the steady connections.',
 [PD,SD],[('reset on return',PD+':cache, '+SD+':_reset'),('session preparation on create',SD+':_setsession')],['statements per raw connection at the driver boundary'])
p('C18','Lost connections are replaced transparently outside transactions',
 'Outside an explicit transaction, a statement that fails because its connection was lost, reached its usage limit or cannot give a cursor is carried out once on a fresh connection and the caller sees its result, provided the server accepts a new connection; otherwise the caller gets the original error. Statements that fail for other reasons raise that error unchanged, the connection stays usable, each raw connection replaced is closed, and no statement runs twice with effect.',
 ['fault_sequences','schedules','histories','configurations'],
 'every sequence of connection losses, failing reconnects, failing cursors and ordinary errors at any call, for all ping and usage-limit settings',
 NOT+'there is no test of the steady connections; each path needs a driver failing at a chosen call.',
 [SD],[('tough cursor and reconnect logic',SD+':_cursor, _get_tough_method')],['results seen by the caller, calls on raw connections'])
p('C19','An explicit transaction never continues on another connection',
 'Between begin and commit or rollback all statements run on one and the same raw connection; if that connection is lost, the next call raises an error to the caller instead of silently continuing elsewhere. A commit that returns normally has committed every statement issued since begin, and after a failure was reported inside a transaction no later call ever commits only a part of it.',
 ['fault_sequences','schedules','histories','configurations'],
 'every sequence of statements with a connection loss, failed cursor, usage limit or failed reconnect at any call inside the transaction, for pooled dedicated, pooled shareable and plain steady connections',
 NOT+'there is no test of the steady connections, and the failure must hit inside a transaction.',
 [SD,PD],[('transaction flag suspending failover',SD+':_transaction')],['committed statements per raw connection, errors seen by the caller'])
p('C20','Parsing a statement gives the same tree whatever else is being parsed',
 'Parsing a given SQL text with a given dialect and options always yields the same tree (or the same kind of rejection), whatever texts, valid or not, were parsed before it and whatever other threads parse at the same time in the same or another dialect. Every call returns or raises; no failed or interrupted parse blocks later ones.',
 ['schedules','histories','inputs'],
 'every interleaving of threads parsing with the default, MySQL and SQL Server dialects and different null and call-shape options, including first use at the same moment, syntax errors and interrupts inside a parse',
 'The tests parse one text after another in a single thread with mostly one dialect; shared parser state, options held in module variables and lazy construction only matter when calls overlap or fail in the middle.',
 ['sql_parsing/__init__.py','sql_parsing/utils.py','sql_parsing/sql_parser.py','parsing/core.py','parsing/whitespaces.py'],
 [('one global lock around every parse','sql_parsing/__init__.py:parse_locker'),('options kept in module globals during a parse','sql_parsing/__init__.py:_parse')],
 ['returned trees'])
p('C21','A server that does not answer delays only the requests that need it',
 'While one back end, or the metadata store, neither answers statements nor accepts connections, requests that do not need it are answered correctly and within a small bounded time, as if it worked: selects, sums, joins, inserts, updates and deletes on tables of other back ends, over any end point, and conversions of such statements. (Creating and dropping tables may wait, as the catalog changes by one request at a time; looking up a data source needs the metadata store; and a request handler has a fixed number of worker threads, 100 as shipped, which waiting requests occupy.)',
 ['fault_sequences','schedules','histories'],
 'every moment at which a server stops answering, while connecting or inside any statement of selects, sums, writes, creates, drops, look-ups and conversions, with every interleaving of requests that need it and requests that do not',
 NOT+'no test has a second back end or one that stops answering; a lock held across a network call shows only then.',
 [RE,PD,MD,H],
 [('one pool for each address and account',RE+':connect_db'),('locks of the catalog and the metadata connections',MD+', '+H),('worker threads',H+':executor')],
 ['HTTP answers in virtual time'])
p('C22','The schema listing shows exactly the tables that exist',
 'The schema listing of a stored data source (GET /jdbc_query/schema/<id>) shows, as of one single instant between request and answer, exactly the tables created through the proxy in the database the data source names and not dropped since: each once, under its own name, with each of its columns once, and the encrypted ones marked by an asterisk. A table whose create or drop is in progress, was answered with an error or was cut off by a crash is listed completely or not at all, and at rest a table is listed exactly when it can be queried.',
 ['schedules','histories','crash_points','fault_sequences'],
 'every interleaving of listings with creates and drops in several databases, every failure of the metadata store during them, and every crash point of the proxy in a create or drop',
 NOT+'no test asks for a listing; a listing that mixes with a create, a drop, a crash or another listing shows only then.',
 [H,MD],
 [('listing of a data source',H+':SchemaHandler'),('all columns of a table stored in one transaction',MD+':change_store')],
 ['HTTP answers'])
p('N01','Column ciphers invert exactly and order-preserving ones keep order',
 'Decrypting what a column cipher produced gives back the original value for every supported value and key, and the order-preserving cipher is strictly monotonic over its whole domain.',
 ['inputs'],'every key and every value of the supported types','the encryption classes have no tests; only a proof or exhaustive numeric search settles all inputs',
 [EN,'scheduler/crypto/ope/ope.py'],[('cipher classes',EN)],['return values'])
p('N02','Formatting a parsed statement gives an equivalent statement',
 'For every statement the parser accepts, formatting the parse tree and parsing the result again yields the same tree.',
 ['inputs','programs'],'every accepted statement','tests sample a few statements',
 ['sql_parsing/formatting.py','sql_parsing/sql_parser.py'],[('formatter','sql_parsing/formatting.py')],['return values'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
