"""What each check is: evidence texts, build mode and coverage floors."""
EX, FE = 'exploration', 'fault_enumeration'

FAKE = 'store, bus, lock and id generator are recording in-memory stand-ins for the interfaces the engine is given'
HIST = 'a history is 2-5 random commands (five command forms; random adds, loads, moves, detaches, revives, removals, modifications, events and intermediate saves over eight entity kinds) on one store. '
FAULTS = 'a fault case is one random command re-run with an error, panic or break injected at every single interaction it has with its environment. '
SHARED = 'a shared case runs 2-6 concurrent and nested commands on one engine under virtual time with random collaborator delays and callers that cancel their context midway. '
SIM = 'MySQL is replaced by a simulated server: SQLite storage behind a driver that adds FOR UPDATE [NOWAIT] row locks, lock-wait timeouts, READ COMMITTED reads, latency, statement faults and client deaths under virtual time (writers are serialised, so write-write deadlocks and gap locks are not produced)'
BUS = 'a case runs 1-4 services with 1-4 instances each of the real database event bus on one simulated server under virtual time: random publications of unordered, loosely and strictly ordered events by several senders, random handler outcomes (success, error, panic, slow), retry strategies, batch limits, concurrency, post-save triggers, late services, operator expiry; a quarter of the cases with latency, a quarter with statement errors (before or after execution), a quarter with killed and restarted instances, a sixth with everything down for one to four days before the publications. Every handler start is judged against the committed rows, the rest after faults stop and the system settles. Distinct = (mode, action history, handler outcomes, services, events). '
LOCK = 'a case runs 2-8 clients of the real database lock (one or several lock objects, with and without retries) on one simulated server under virtual time: random lock, release, double release, foreign release and run operations on 1-3 keys with leases from 20 ms to seconds, functions that return, hang, panic or ignore their context, callers that cancel, a monitor that takes leases away, latency in some cases, statement faults in others, pauses that end exactly at the limit of a lease. The life of every lease is read back from database triggers. Distinct = (mode, operation history with results). '
SHAPE = 'Distinct = distinct sequences of (inserted, updated, moved, deleted, live) per save with command form and options, distinct (fault position, mode, form), distinct concurrent histories.'

CHECKS = {
    'C01': dict(level=EX, technique='runtime monitor: reference model of the aggregate checked against every recorded store action',
        rule=HIST + 'Each save is compared with the net change the reference model derives, and the store afterwards with the model. ' + SHAPE,
        floors=dict(saves_checked=20000, moves_expected=1500), assumptions=[FAKE]),
    'C02': dict(level=FE, technique='runtime monitor: fault enumeration over every interaction of a command, checked by a transaction-bracket and all-or-nothing oracle',
        rule=FAULTS + HIST + SHARED + 'The bracket monitor requires one begin and one matching end, an unchanged store after a failure and a reported cause. ' + SHAPE,
        floors=dict(faults_injected=5000), assumptions=[FAKE]),
    'C03': dict(level=EX, technique='runtime monitor: identity checker over id-generator calls, stored models and entities',
        rule=HIST + SHARED + 'Identities are checked at every save and over concurrent commands with the default generator. ' + SHAPE,
        floors=dict(inserts_expected=50000, entities_created_concurrently=5000), assumptions=[FAKE]),
    'C04': dict(level=EX, technique='runtime monitor: trace checker interleaving hook calls with store actions',
        rule=HIST + FAULTS + 'Expected hook calls come from the reference model. ' + SHAPE,
        floors=dict(hooks_seen=100000, faults_injected=2000), assumptions=[FAKE]),
    'C05': dict(level=EX, technique='runtime monitor: exactly-once and order checker over emitted and dispatched events',
        rule=HIST + FAULTS + SHARED + SHAPE,
        floors=dict(events_checked=20000, faults_injected=2000), assumptions=[FAKE]),
    'C06': dict(level=FE, technique='runtime monitor: protocol checker of the message transaction against the database transaction under fault enumeration',
        rule=FAULTS + HIST + SHAPE,
        floors=dict(message_transactions=3000, faults_injected=10000), assumptions=[FAKE]),
    'C07': dict(level=FE, technique='runtime monitor: lock-bracket trace checker, fault enumeration, deadlock detection under virtual time',
        rule=FAULTS + HIST + SHARED + 'Blocking locks are owned by the harness; a state in which nobody can run is a deadlock. ' + SHAPE,
        floors=dict(lock_brackets=10000, faults_injected=5000), assumptions=[FAKE]),
    'C08': dict(level=EX, technique='runtime monitor: no-effect checker over store, bus and result of dry runs',
        rule=HIST + SHARED + 'Half of the commands are dry runs. ' + SHAPE,
        floors=dict(saves_checked=20000), assumptions=[FAKE]),
    'C09': dict(level=EX, technique='runtime monitor: callback ownership and result checker over histories of one engine',
        rule=HIST + FAULTS + SHARED + SHAPE,
        floors=dict(callbacks_checked=10000, post_callbacks=50000), assumptions=[FAKE]),
    'C10': dict(level=EX, technique='runtime monitor: misuse generator with a no-side-effect oracle',
        rule='a case is a random command that commits one of the catalogued misuses at a random point; the error must surface and the command persist nothing. ' + HIST + 'Distinct = (misuse, command form, position) and save shapes.',
        floors=dict(misuses_judged=5000), assumptions=[FAKE]),
    'C11': dict(level=EX, race=True, procs=3, technique='runtime monitor: Go race detector over the real components under concurrent workloads, with serializability and interference checkers',
        rule='the harness is built with the race detector, whose reports are violations when the innermost frame of an access lies in the repository. Workloads: plain (3-7 goroutines with commands of every form, Create, Delete, registrations, deliveries, status queries and cron registrations on shared engines with shared options, hooks and lock keys, in an environment without mutexes of its own), membus (commands, handlers that run commands, repeated starts and registrations on the in-memory bus), shared (2-6 concurrent and nested commands under virtual time, checked for a sequential explanation), registrations (a bus, a timer and a lock that work while goroutines that do nothing else register handlers and checkers, publish and lock), full (commands, deliveries, timers, locked runs, registrations and starts of bus and timer at the same time on the real SQL executor, database lock, database bus and timer; the version chain of every counter and the effects of every event are read back), and the workloads of the lock, redis, timer, memory bus, database bus and stack checks. Distinct = interleavings of lock, begin and end per command, version chains, shapes.',
        floors=dict(stateless_commands=100000, memory_bus_events=15000, commands_run=5000, component_commands=1200, component_versions=3000, registrations_status=1000),
        assumptions=[FAKE + ' in some workloads', SIM, 'races need both accesses to be executed, though not at the same time; happens-before edges of shared collaborators can hide some']),
    'C12': dict(level=EX, technique='runtime monitor: exactly-once routing checker over handler, checker and timer invocations',
        rule='a case registers random handlers, status checkers and timer handlers (every accepted function form and parameter type, several per event type) on a recording bus, delivers random and malformed events, status queries and timer firings, and compares every invocation, argument and returned error with what was registered. Distinct = (workload, handler forms, payload kind, outcome).',
        floors=dict(deliveries=20000, status_queries=5000, timer_firings=5000), assumptions=[FAKE]),
    'C13': dict(level=EX, technique='runtime monitor: reference model of recursive deletion checked against recorded store actions and hooks',
        rule=HIST + 'Histories are biased to deletions, half of them with recursive deletion. ' + SHAPE,
        floors=dict(deletes_expected=20000), assumptions=[FAKE]),
    'C14': dict(level=EX, technique='runtime monitor: loaded aggregates compared with the stored rows',
        rule='a case loads random roots and children through every load form from a random store, with missing rows and query faults. ' + HIST + SHAPE,
        floors=dict(loads_checked=20000, missing_roots=1000), assumptions=[FAKE]),

    'B01': dict(level=FE, technique='runtime monitor: all-or-nothing checker of the event and delivery tables around every publication, with faults and kills at random statements',
        rule=BUS, floors=dict(publications=1500, publications_stored=1200, publications_nothing=30, faults_injected=1000), assumptions=[SIM]),
    'B02': dict(level=FE, technique='runtime monitor: at-least-once checker over handler calls and delivery rows under injected statement faults, kills and restarts',
        rule=BUS, floors=dict(handler_calls=10000, deliveries_succeeded=5000, faults_injected=1000), assumptions=[SIM]),
    'B03': dict(level=EX, technique='runtime monitor: mutual-exclusion and no-repeat checker over handler calls of concurrent instances, workers and triggers',
        rule=BUS, floors=dict(handler_calls=10000, deliveries_succeeded=5000), assumptions=[SIM]),
    'B04': dict(level=EX, technique='runtime monitor: per-sender order checker judging every handler start against the committed delivery rows',
        rule=BUS, floors=dict(ordered_with_predecessor=8000), assumptions=[SIM]),
    'B05': dict(level=EX, technique='runtime monitor: per-sender order checker judging every handler start against the committed delivery rows',
        rule=BUS, floors=dict(ordered_with_predecessor=8000), assumptions=[SIM]),
    'B06': dict(level=EX, technique='runtime monitor: retry checker over attempt times, counts and outcomes against the configured strategy, under virtual time',
        rule=BUS, floors=dict(retries_seen=5000, deliveries_failed=300), assumptions=[SIM]),
    'B09': dict(level=EX, technique='runtime monitor: isolation checker over deliveries and failure records, liveness after failures, process crash detection',
        rule=BUS, floors=dict(handler_calls=10000, deliveries_failed=300), assumptions=[SIM]),
    'B07': dict(level=FE, technique='runtime monitor: transactional-message state checker (prepared xor published as a whole xor gone) with faults and kills at every statement and scripted status checkers',
        rule='a bustx case runs 4-16 transactional messages on 1-2 services with 1-3 instances each: prepared, then committed or rolled back early, late, about the time of the status check or never, with scripted checker answers (unknown, panic, commit, rollback, never), latency, random statement faults, kills and restarts; a busenum case strikes every single statement of preparing, committing and rolling back with every kind of fault (error before, lost acknowledgement, death before, death after). The state of a message is judged on one snapshot at every check, delivery and call, and after everything settled. Distinct = action history with checker calls; (operation, fault kind, statement).',
        floors=dict(messages=4000, fault_points=1000, status_checks=4000, messages_published=2000, messages_discarded=1000, abandoned=500), assumptions=[SIM]),
    'B08': dict(level=FE, technique='runtime monitor: every row deleted from the bus tables (recorded by database triggers with its state and the deleting instance) judged against clean-up rules; completeness and no-loss checked at the end',
        rule='a case runs 1-4 services with 1-3 instances each whose cleaners fire every one or two minutes with retentions from 0 to 10 minutes while events are published (bursts beyond the clean-up batch), handled with failures, expired by operators and left pending by dead services; latency, statement faults and kills in three quarters of the cases, a jump over the 24 h scan window in a fifth. Distinct = (mode, action history, events).',
        floors=dict(deliveries_cleaned=2500, events_cleaned=800, events_surviving=800, faults_injected=5000), assumptions=[SIM]),
    'L01': dict(level=EX, technique='runtime monitor: mutual-exclusion checker over the database trigger log of every lease written, renewed, taken over or deleted',
        rule=LOCK, floors=dict(acquisitions=12000, refusals=10000, takeovers=3000, renewals=10000, faults_injected=3000), assumptions=[SIM]),
    'L02': dict(level=EX, technique='runtime monitor: lease history checker over lock, refusal and release results against the database trigger log',
        rule=LOCK, floors=dict(acquisitions=12000, refusals=10000, releases=7000, releases_refused=2000, takeovers_at_the_limit=800), assumptions=[SIM]),
    'L03': dict(level=EX, technique='runtime monitor: lease, renewal and context checker of locked runs against the database trigger log, goroutine-leak detection under virtual time',
        rule=LOCK, floors=dict(runs=3000, runs_lost=250, losses_judged=200, runs_cancelled_by_caller=150, renewals=10000), assumptions=[SIM]),
    'L04': dict(level=EX, technique='runtime monitor: exclusion, expiry and ownership checker over the commands executed by a fake redis server, with connection faults under virtual time',
        rule='a case runs 2-6 clients of the real redis lock (shared or own go-redis clients) against an in-process redis server on in-memory connections under virtual time: random acquisitions of 1-3 keys, holders that release early, late, twice, never or by handing the handle on, callers with and without deadlines and cancellations, leases from 150 ms to 60 s; latency in half of the cases, refused, dropped and hanging connections, lost replies, error replies and garbage in a quarter. Every stored value is followed from its command to its end. Distinct = operation results in order.',
        floors=dict(acquisitions=100000, refusals=25000, releases=100000, releases_refused=60000, faults_injected=20000),
        assumptions=['redis is replaced by a server that implements the string commands with expiry and recognises the three scripts of the lock library; a single server without replication or failover']),
    'B10': dict(level=EX, technique='runtime monitor: order, exactly-once and stop checker over the deliveries of the in-memory bus, under virtual time',
        rule='a case runs 1-6 dispatchers with 1-20 batches each on a real in-memory bus of random capacity, started 1-3 times (before, while or after dispatching), with handlers that are slow, fail or panic, and stops it at a random instant or after everything was handled; afterwards virtual time goes on and everything handed over is still compared, and the processor time after the stop is watched. Distinct = per-dispatcher delivery counts and outcomes.',
        floors=dict(events_dispatched=100000, handler_calls=80000, handler_failures=30000, started_repeatedly=2000, stops=8000),
        assumptions=['events that were dispatched but not yet taken by the worker when the context ended may be lost; the bus keeps events in memory only']),
    'T01': dict(level=EX, technique='runtime monitor: schedule checker over recorded registrations, cancellations and firings on a simulated database, with virtual time, faults and instance deaths',
        rule='a case runs 1-2 services with 1-6 instances of the real DBTimer polling one simulated database (row locks, NOWAIT, latency) while 1-3 keys per service are registered (half of the time by several instances at once), registered again, cancelled (also by the other service) and set up anew; expressions of second, minute and hour scale; handlers slow, failing, panicking; half of the cases inject statement failures before and after execution, a quarter kill and restart instances. Every firing is judged against the cron schedule of the possible registrations, every gap against the idle time of each instance. Distinct = numbers of firings per timer.',
        floors=dict(timers=5000, firings=70000, waits_judged=60000, faults_injected=2500, instances_killed=400, registered_concurrently=2500),
        assumptions=['MySQL is replaced by a SQLite database behind a driver that adds row locks, lock waits and NOWAIT; a missed tick is not made up for; a timer may fire again when the write or commit after its handler fails or its instance dies']),
    'T02': dict(level=EX, technique='runtime monitor: schedule checker over recorded registrations and firings of one-shot timers on a simulated database, with virtual time, faults and instance deaths',
        rule='as T01; a third of the keys are one-shot timers with due times from a millisecond to six units ahead (some on whole seconds), and some registrations in the past. Distinct = numbers of firings per timer.',
        floors=dict(timers=5000, registrations_rejected=700, faults_injected=2500, instances_killed=400),
        assumptions=['as T01; whether a key whose one-shot timer has fired can be registered again without a cancellation is left open']),
    'T03': dict(level=EX, technique='runtime monitor: identity checker over recorded registrations, cancellations and firings on a simulated database, with virtual time, faults and instance deaths',
        rule='as T01, judged for registrations of a key that is there already (sequential and concurrent), invalid expressions, cancellations by the own and by another service, and keys set up anew; a second workload cancels a timer from inside its own handler. Distinct = numbers of firings per timer.',
        floors=dict(registered_again=9000, registered_concurrently=2500, cancellations=2500, foreign_cancels=2000, registrations_rejected=700, self_cancellations=16),
        assumptions=['as T01; keys are distinct between services (the table has one unique index on the key)']),
    'X01': dict(level=EX, technique='runtime monitor: model-based checker of the stored rows after every command, on a simulated database, with models of every column kind',
        rule='real engine and mysql executor on the simulated database; histories of commands (function and builder style, with saves inside) on one to three aggregates of five model types (single string and integer keys, a composite key with zero components, a key column named like a reserved word, embedded structs by value and pointer with prefixes, JSON serializers, nulls, decimals, times with zones, soft delete), inserting, changing, moving, detaching and removing entities with boundary values and unusual strings; a quarter of the commands fail (error, panic, invalid text, duplicate key); after each command all rows of all tables equal the model, loading gives the stored values, other aggregates are untouched. Distinct = numbers of rows per table at the end.',
        floors=dict(commands=8000, commands_failed=2000, entities_loaded=60000, rows_compared=160000, rows_inserted=24000, rows_deleted=3700, columns_changed=23000),
        assumptions=['the database is SQLite behind a driver that adds row locks; MySQL-only conversions (collations, implicit type casts, placeholder limits) are not modelled',
                     'a converter gives the same model for every operation; a row is not removed and inserted again under one key in one save']),
    'X02': dict(level=EX, technique='runtime monitor: column-level differential checker with a second writer between load and save',
        rule='as X01; between loading and saving another client writes columns the command does not change, which must keep that value, while changed columns must hold the new one. A second workload calls the executor directly on batches of one to four rows with random sets of changed columns and of columns written by others; a third changes slices, maps and pointers in place. Distinct = (type, set of changed columns).',
        floors=dict(columns_changed=50000, columns_of_others=80000, foreign_writes=55000, rows_compared=200000),
        assumptions=['columns holding slices, maps and JSON are only required to be written when changed', 'a time is compared as an instant']),
    'X03': dict(level=EX, technique='runtime monitor: statement-trace checker (statement, command, transaction) with a concurrent reader, fault injection and connection accounting',
        rule='one to four commands at a time on two simulated databases, nested up to three deep in each other (own transaction, second executor of the same database, or no transaction), ending in success, error, break, panic or a panicking converter, with an error or a lost answer at begin, commit, rollback or any statement; every statement is told to its command by its keys; each command runs in one transaction of its own database and in nobody else\'s, a reader polling the tables never sees rows of a command that has not reached its commit, a failed command leaves nothing, and no connection stays in use. Distinct = (engine, ending, fault and its place, depth).',
        floors=dict(commands=20000, commands_failed=6000, faults=1700, statements=16000, transactions=6500, reads=50000),
        assumptions=['a command without a transaction of its own nested in one of the same executor is left open (it joins)', 'READ COMMITTED, one writing transaction at a time']),
    'E01': dict(level=EX, technique='runtime monitor: end-to-end invariant checker (conservation, version chains, serial order, event-iff-commit) over a small bank on the real components, with virtual time, faults and process deaths',
        rule='engine, SQL executor, database lock and database event bus of one to several processes of one service and a second listening service on simulated servers; clients open wallets, transfer between two locked wallets and drain one into the other (main, builder and stage commands, saves half-way, dry runs, commands that fail, break or panic), each emitting one to three events (transactional, strictly or loosely ordered, normal) whose handlers fail now and then, write a receipt through the engine and emit a follow-up; random latency, very slow commits, statement errors, lost answers, process deaths and restarts. The server tells which transactions committed; after the system came to rest every wallet equals the chain of its committed operations, the union of the chains and real time is acyclic, reads under the lock are never torn, and an event was handled by both services iff its transaction committed (transactional) or at least if it did (others), once published, in the order of the operations (ordered). Distinct = (mode, numbers of operations, commits, cut off operations, handler calls, processes).',
        floors=dict(operations=25000, operations_committed=7500, operations_cut_off=100, events_judged=12000, faults_injected=1500, wallets_judged=1100, wallet_reads=4000, status_checks=500),
        assumptions=['business tables, locks and event tables lie on three servers (the simulated server has one write slot)', 'locks live longer than commands and handlers are idempotent']),
    'E02': dict(level=EX, technique='runtime monitor: checker of the recorded requests of concurrent clients against replies, stored rows and published events, with virtual time and faults',
        rule='the order service of the example on 1-3 processes over the real engine, SQL executor, database lock and database event bus; 1-5 clients create orders, add items and coupons, set remarks, delete, read and list over HTTP, send requests that cannot be meant; one client, several with latency, several with statement errors and lost answers. Each read is compared with the requests that were over before and begun when it came back; at rest the rows, totals, remarks, lists and events are compared with the successful requests. Distinct = (mode, numbers of replies by action and outcome).',
        floors=dict(requests=10000, reads=2500, lists=400, orders=1500, events=7000, faults_injected=900, bad_requests=300),
        assumptions=['business tables, locks and event tables lie on three servers (the simulated server has one write slot)', 'the tables exist (main.go creates most of them, see DESIGN.md)', 'requests overlapping another one on the same order may be refused by its lock']),
}
