#!/usr/bin/env python3
"""Single source of properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ------------------------------------------------------------------ engine
p("C01", "A successful command persists exactly the aggregate's net change",
  "After a command succeeds, the store differs from before by exactly the net change made to the aggregates: one insert per entity that is new, one update per existing entity that was marked dirty or moved to another parent, one delete per existing entity that was detached or whose root was removed, each row carrying the final field values and the parent of the entity's final position. Entities that were loaded but not changed are not written, entity types without a registered converter are skipped without affecting the others, and nothing is lost or doubled when a command mixes adds, loads, removals and intermediate saves in any order.",
  ["inputs", "histories", "programs"],
  "every command form (legacy command, main command, function, engine Create/Delete), every sequence of add/load/remove/modify/move/detach/intermediate save over aggregates of any shape (pointer, slice, map, custom children, nesting)",
  "Tests check four hand-built orders; the guarantee ranges over all mutation sequences and tree shapes, and the interesting failures need a mix (for example add then load, remove then load, move between parents).",
  ["engine.go", "snapshot.go", "domain.go", "command.go"],
  [("snapshot and diff of entity trees", "snapshot.go entityDiff/handleEntityMove"), ("snapshot maintenance on load", "engine.go Stage.updateSnapshot/flush"), ("conversion into batched actions", "engine.go Stage.makeActions")],
  [("Stage.snapshot", "children and model of every entity as last loaded or saved", "engine.go")],
  ["IExecutor.Exec calls and the rows of the store after commit"])
p("C02", "A command that fails leaves no trace, and every failure is reported",
  "With transactions on (the default), a command whose function, hook, converter, id generator, store operation, event persistence or event dispatch fails, which asks to break off, which panics, or whose commit fails, leaves none of its writes in the store: exactly one begin is followed by exactly one rollback or commit, and rollback happens whenever the result is not a success. The result carries an error for every failure (the original cause recoverable with errors.Is where a single cause is returned), carries Break and no error for a break request, and a panic reaches the caller after the rollback.",
  ["fault_sequences", "inputs"],
  "every position at which a collaborator call (k-th store call, hook, converter, id generation, event persist, dispatch, begin, commit) or user code fails, breaks or panics, for every command form",
  "Tests inject one failing handler; the guarantee quantifies over every fault position in every command.",
  ["engine.go", "executor/mysql/executor.go"],
  [("transaction bracket", "engine.go Stage.runWithTransaction"), ("error propagation", "engine.go Stage.do/persist")],
  observe=["ITransaction.Begin/Commit/RollBack trace, Result, store contents"])
p("C03", "Every new entity gets a unique identity before it is stored",
  "Every entity created by a command, at any depth, has a non-empty identifier before its model is stored: an identifier set by the application is kept, otherwise exactly one fresh one is obtained from the configured generator (globally unique with the default generator, including under concurrency). The identifier is visible on the entity after the command or after an intermediate save, children are stored with their parent's identifier, and an identifier never changes afterwards.",
  ["inputs", "schedules"],
  "all aggregate shapes and depths, preset or missing identifiers, repeated saves, custom generators, concurrent commands",
  "Tests look at one or two created entities; nesting, mixtures of preset and generated ids, repeated saves and concurrency are not sampled.",
  ["engine.go", "domain.go"],
  [("id assignment", "engine.go Stage.putNewID"), ("default generator", "engine.go defaultIDGenerator.NewID")],
  observe=["IIDGenerator.NewID calls, models given to IExecutor.Exec, entity.GetID()"])
p("C04", "Lifecycle hooks run exactly once around the matching write",
  "For every entity inserted, updated or deleted by a save, the matching before-hook runs exactly once before any write of that save and the matching after-hook exactly once after all writes of that save, and no other lifecycle hook of that entity runs. Changes a before-hook makes to the entity's own fields are persisted by the same save. An error from any hook fails the command and undoes it.",
  ["inputs", "fault_sequences", "histories"],
  "every set of changes, several saves in one command, moved entities (update hooks), deletion of roots and children (with and without recursion), failures in any hook",
  "One test runs hooks on one create/update/delete each; ordering against other entities' writes, moves, multiple saves and hook failures are not covered.",
  ["engine.go", "domain.go"],
  [("hook execution", "engine.go execHook, Stage.persist")],
  observe=["hook invocations interleaved with IExecutor.Exec calls"])
p("C05", "Every event of a successful command is published exactly once, in order",
  "When a command succeeds, every event added by any entity of its aggregates - created, modified, unchanged, detached or removed, at any depth, before or during saves, from application code or lifecycle hooks - is handed to the event bus exactly once with its type, sender, send type and payload intact, ordered by creation. With an event persistence function configured, exactly those events are also stored in the same transaction. When a command fails, breaks off or is a dry run, no ordinary event is handed over, except events already dispatched in the step that then failed.",
  ["inputs", "histories", "fault_sequences"],
  "all placements of events over aggregates and time within a command, all send types, several saves, deletions, failing commands",
  "Tests emit one or two events from a root; deleted children, hooks, several saves and equal timestamps are not sampled.",
  ["engine.go", "event.go"],
  [("event collection", "engine.go Stage.collectEvents/recycle"), ("dispatch", "engine.go Stage.dispatchEvents"), ("event persistence", "engine.go Stage.makeEventPersistAction")],
  observe=["IEventBus.Dispatch/DispatchBegin arguments, actions for persisted events"])
p("C06", "Transactional events follow the outcome of the database transaction",
  "With an event bus that supports transactional messages, all transactional events of a command are prepared exactly once inside the database transaction and the rest are dispatched normally; the message transaction is committed exactly once after a successful database commit and never before, and rolled back exactly once when the command rolls back after preparing succeeded. If the database commit reports failure neither is called, so the outcome is left to the status check. With a bus lacking that support every event goes the normal way.",
  ["fault_sequences", "inputs"],
  "all mixes of event send types, all failure points from prepare to commit, buses with and without transactional support, transactions on and off",
  "The MySQL-backed tests exercise only the success path and cannot run without a server; the failure points between prepare, database commit and message commit are never produced.",
  ["engine.go", "event.go"],
  [("message transaction protocol", "engine.go Stage.dispatchEvents/runWithTransaction")],
  [("Stage.eventCtx", "context returned by prepare and given to commit/rollback", "engine.go")],
  ["ITransactionEventBus call trace against ITransaction call trace"])
p("C07", "Declared locks bracket the whole command and are always released",
  "A command that declares lock keys acquires each distinct key exactly once, in one global order, before its transaction begins, runs only if all were acquired, and releases each acquired lock exactly once after its transaction has ended. This holds on success, error, break, panic, commit failure and when a later key cannot be acquired (then only the acquired ones are released, nothing runs and the cause is reported); a repeated key is rejected without running or leaking anything.",
  ["inputs", "fault_sequences", "schedules"],
  "any key list in any order and with duplicates, failure of the k-th acquisition or of releases, every command outcome, concurrent commands with overlapping key sets",
  "Tests use a lock stub that never fails and never check release; deadlock freedom needs the global order over all key sets.",
  ["engine.go"],
  [("lock bracket", "engine.go Stage.runOnLock")],
  observe=["ILock.Lock/UnLock trace against ITransaction trace"])
p("C08", "A dry run has no external effect",
  "A command run in dry-run mode executes its business code, hooks and id assignment but performs no insert, update or delete, sends, prepares or persists no event, and records no executed action in its result, whatever the mix of saves and events; loads still work. Turning dry-run on for one command does not affect others.",
  ["inputs", "histories"],
  "every command of the other properties, run with the dry-run option on the engine or on the single command",
  "No test uses the option.",
  ["engine.go"],
  [("dry run guards", "engine.go Stage.exec/dispatchEvents")],
  observe=["executor, event bus and result"])
p("C09", "Post-save callbacks and results belong to their own command",
  "Every post-save callback configured on the engine or the command (including the command's own) runs exactly once if and only if the command's result carries no error, after the transaction has ended and the locks are released, and receives the same result the caller gets, with the output the command set and the actions it executed. Callbacks, options and results of one command never leak into another, including nested and concurrent commands of one engine.",
  ["inputs", "schedules", "histories"],
  "any number of engine-level and command-level callbacks and options, nested commands, concurrent commands, every outcome",
  "Tests run a single command with one callback; leakage needs several callbacks on one engine and overlapping commands.",
  ["engine.go", "command.go"],
  [("callback list", "engine.go PostSaveOption.ApplyToOptions, Stage.Save"), ("per-command options", "engine.go Engine.NewStage, Stage.WithOption")],
  observe=["callback invocations and their results, per command"])
p("C10", "Misuse of a repository is reported instead of silently losing work",
  "Adding a root that is already managed, removing a root the container does not hold, loading into an entity that is already managed, loading without an identifier or into a variable that cannot hold entities, returning roots without identifier from a build step, recording an event that cannot be encoded, or placing one entity under two parents in the same command makes the call or the command return an error. A command that returns that error persists nothing and publishes nothing.",
  ["inputs"],
  "every command form and every position of the misuse among otherwise valid operations",
  "Only one duplicate-add case is tested, through an internal type; the public command forms are not.",
  ["engine.go", "snapshot.go"],
  [("duplicate detection", "engine.go EntityContainer.Add/Remove, Repository.Add/Get/Remove"), ("repeated entity detection", "snapshot.go handleEntityMove")],
  observe=["Result.Error, store, bus"])
p("C11", "Concurrent commands on one engine are race free and serializable",
  "Any number of commands, event handlers, timers and locked runs may run concurrently on one engine and its components without data races, and registering handlers, starting buses and timers and the registration done implicitly by every command are safe while buses and timers are delivering. Values the application shares between commands (options, hooks, lock keys, stateless commands) are not modified. Commands that lock the same aggregate behave as if executed one after another: no update is lost and every aggregate's final state, events and results are explained by a sequential order of the commands.",
  ["schedules"],
  "all interleavings of commands, nested commands, event deliveries, timer callbacks and component start",
  "No repository test runs commands concurrently, and none runs under the race detector.",
  ["engine.go", "event.go", "eventbus/mem/eventbus.go", "eventbus/mysql/eventbus.go", "d_timer/sql/timer.go", "lock/db/sql.go", "executor/mysql/executor.go"],
  [("per-command stage", "engine.go Engine.NewStage"), ("router mutex", "event.go eventBusMu"), ("handler registration", "eventbus/*/eventbus.go RegisterEventHandler")],
  observe=["Go race detector reports", "linearizability of recorded per-aggregate histories"])
p("C12", "Every delivered event reaches exactly the handlers registered for its type",
  "A delivered event invokes every handler registered for its type exactly once, in registration order, until one returns an error, which is reported to the bus; handlers of other types are not invoked. Each handler receives the event decoded into its own parameter type (or the raw event), a payload that cannot be decoded is reported as an error, and a handler that yields a command has that command executed with its error reported. A status query for a transactional event is answered by the checker registered for that type, and by rollback when there is none or the payload cannot be decoded. Every bus or timer given to an engine, to one command or registered on its own delivers into these handlers; a timer callback reaches the task registered for its key, and registering a task under a taken key, or one that the timer refuses, fails. A value that cannot handle an event is refused when it is registered and leaves the other registrations as they were.",
  ["inputs", "histories"],
  "any set of registrations, parameter types, payloads, handler outcomes and command forms returned by handlers",
  "Tests register one or two handlers; ordering, isolation between types, decode failures and errors in the middle are not sampled.",
  ["event.go", "engine.go"],
  [("router", "event.go onEvent/onTXChecker"), ("command handlers", "engine.go Engine.RegisterEventHandler")],
  [("eventRouter", "handlers by event type", "event.go")],
  ["handler invocations and the error returned to the bus"])
p("C13", "Recursive deletion removes exactly the deleted subtrees",
  "With recursive deletion on, removing a root or detaching a child deletes that entity and every descendant it currently has, each exactly once and with delete hooks, and no entity outside those subtrees; with it off only the removed or detached entities themselves are deleted. Entities moved out of a removed subtree into a surviving parent survive.",
  ["inputs"],
  "all trees, all sets of removed roots and detached children, combined with moves and other changes",
  "One fixed tree is tested.",
  ["engine.go", "snapshot.go"],
  [("subtree expansion", "snapshot.go recursiveDelete")],
  observe=["delete actions and rows left"])
p("C14", "Loading returns exactly the stored aggregate",
  "Loading a root fills it with the stored field values and fills each requested child (single or list) with exactly the stored children of that parent, in store order, leaving nothing of other parents; a missing root is reported as not found, a missing single child is left unset without an error, and a store or conversion error is reported. Loading alone writes nothing and marks nothing changed, and a loaded aggregate saved after a change updates only what changed.",
  ["inputs", "fault_sequences"],
  "all stored states, aggregate shapes, request shapes, query failures",
  "Tests load from one fixed data set.",
  ["engine.go"],
  [("entity building", "engine.go Stage.BuildEntity/buildEntity/buildEntitySliceByParent")],
  observe=["entities after load, executor trace"])
# ------------------------------------------------------------------ SQL executor
p("X01", "Aggregates round-trip through the SQL executor",
  "Through the SQL executor, the rows in the database after a successful command equal the aggregates' final state and loading them back yields an equal aggregate, for every mix of inserts, updates and deletes including batches, composite and single primary keys, zero values, nulls and unusual strings. Rows of other aggregates and other tables are untouched.",
  ["inputs", "histories"],
  "all values of supported column types, batch sizes, sequences of commands",
  "The repository's executor tests need a MySQL server and check a handful of values.",
  ["executor/mysql/executor.go", "executor/mysql/diff.go"],
  [("statement generation", "executor/mysql/executor.go opMap"), ("converter registry", "executor/mysql/executor.go RegisterEntity2Model")],
  observe=["database rows, reloaded entities"])
p("X02", "An update writes every changed column and only changed columns",
  "An update through the SQL executor writes every column whose value differs between a model and its earlier version (plain values, pointers, nested and embedded structs, slices, maps, JSON, times compared as instants, set to or from zero or null, changed in place or replaced) and no column of a scalar, string, time, pointer or struct field whose value is equal. It therefore stores every change made to the aggregate and never overwrites a column that another writer changed meanwhile. Comparing two models of one type directly names exactly the fields (those of embedded structs by their own names) whose values differ.",
  ["inputs"],
  "all pairs of model values over the supported field kinds, all subsets of changed fields",
  "One pair of values is tested; zero/nil transitions and combinations range over an infinite space.",
  ["executor/mysql/diff.go", "executor/mysql/executor.go"],
  [("field diff", "executor/mysql/diff.go DiffModel/diffStruct/diffValue"), ("column selection", "executor/mysql/executor.go opMap[OpUpdate]")],
  observe=["UPDATE statements, rows"])
p("X03", "SQL work stays inside its command's transaction",
  "All statements a command executes through the SQL executor run inside the transaction begun for that command and become visible to others only after its commit; after a rollback, failed statement or failed commit none of them is visible. Commands running concurrently or nested, and executors on different databases used in one call chain, never execute on each other's transaction, and every connection is returned when the command ends, whatever its outcome.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of concurrent and nested commands, several executors created at any time, faults at any statement",
  "Tests have no second reader, no second executor and no faults.",
  ["executor/mysql/executor.go"],
  [("transaction in context", "executor/mysql/executor.go Executor.Begin/Exec")],
  [("Executor.txKey", "context key under which the transaction travels", "executor/mysql/executor.go")],
  ["statement trace per connection, concurrent reader, pool statistics"])
# ------------------------------------------------------------------ event buses
p("B01", "Publishing to the database event bus is all or nothing",
  "When publishing events returns success, each event is stored exactly once with one pending delivery for every registered service; when it returns an error, or the process dies before it returns, either everything or nothing of that call is stored. No event is ever stored without its deliveries.",
  ["fault_sequences", "crash_points", "inputs"],
  "any batch of events, any set of services, failure or crash at each statement",
  "Tests need MySQL and inject no faults.",
  ["eventbus/mysql/eventbus.go", "eventbus/mysql/po.go"],
  [("dispatch transaction", "eventbus/mysql/eventbus.go EventBus.Dispatch")],
  observe=["event and delivery tables after each call"])
p("B02", "Every published event is delivered to every registered service",
  "Every successfully published event is delivered, with its identity, type, sender and payload intact, to each service that was registered when it was published, as long as some instance of that service keeps polling; delivery is attempted within a bounded number of polls after faults end and is repeated until the handler succeeds or the retry strategy gives up. A service is registered when its bus is created, or else by its polling as soon as the database answers. This survives handler errors, handler panics, database faults and instances that stop at any point.",
  ["fault_sequences", "crash_points", "schedules", "histories"],
  "all histories of publishing, handler outcomes, instance stops and database faults, any concurrency and batch limit",
  "Tests need MySQL and run a fault-free service.",
  ["eventbus/mysql/eventbus.go"],
  [("scan", "eventbus/mysql/eventbus.go EventBus.getScanEvents/handleEvents"), ("delivery transaction", "eventbus/mysql/eventbus.go EventBus.handleEvent")],
  [("ddd_domain_service_event", "delivery state per service and event", "eventbus/mysql/po.go")],
  ["handler calls and delivery rows"])
p("B03", "A delivery is processed by one instance at a time and never after success",
  "For one service, a delivery is never handled by two workers or instances at the same time, and once its success has been recorded its handler is never invoked for it again, however many instances, workers and post-save triggers scan concurrently. Different services consume independently.",
  ["schedules"],
  "all interleavings of scans, lock acquisitions and handler executions over several instances and workers",
  "The concurrency test needs MySQL and samples one schedule; the stale-scan window is never forced.",
  ["eventbus/mysql/eventbus.go"],
  [("row lock and re-check", "eventbus/mysql/eventbus.go EventBus.handleEvent")],
  observe=["handler start/end events against recorded delivery status"])
p("B04", "Strictly ordered events are handled in order per sender",
  "For each service and sender, strictly ordered events are handled in publishing order: an event's handler is not invoked before the preceding ordered event of the same sender (strictly or loosely ordered; unordered ones in between do not count) has succeeded, been expired by an operator or fallen out of the scanned period of a day, across retries, restarts, several instances and workers. Other senders and unordered events are not held up by a blocked one.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of instances, failures and retries, any mix of senders",
  "One MySQL-only test with a fixed outcome.",
  ["eventbus/mysql/eventbus.go"],
  [("predecessor check", "eventbus/mysql/eventbus.go EventBus.checkPrecedingEvent")],
  observe=["handler invocation order per sender"])
p("B05", "Loosely ordered events wait for their predecessor's final outcome",
  "For each service and sender, a loosely ordered event is not handled while the preceding ordered event of the same sender (strictly or loosely ordered; unordered ones in between do not count) is still pending or being retried, and is handled once that one has succeeded, finally failed or been expired, across several instances and workers.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of instances, failures and retries, any mix of senders",
  "One MySQL-only test with a fixed outcome.",
  ["eventbus/mysql/eventbus.go"],
  [("predecessor check", "eventbus/mysql/eventbus.go EventBus.checkPrecedingEvent")],
  observe=["handler invocation order per sender"])
p("B06", "Retries follow the configured strategy",
  "A failing delivery is retried exactly as often and never earlier than the configured strategy (fixed interval, custom intervals, or a user-supplied strategy) prescribes, then marked failed and never handled again; a success at any attempt ends it. Attempts are counted per delivery across instances, and a handler panic counts as a failure.",
  ["histories", "inputs", "configurations"],
  "all strategies and parameters, all outcome sequences, several instances",
  "Tests check one or two strategies with real-time sleeps on MySQL.",
  ["eventbus/mysql/eventbus.go"],
  [("strategies", "eventbus/mysql/eventbus.go IntervalRetry/LimitRetry/CustomRetry.Next"), ("retry bookkeeping", "eventbus/mysql/eventbus.go EventBus.doRetryStrategy")],
  observe=["handler invocation times, delivery rows"])
p("B07", "A transactional event is published if and only if its transaction committed",
  "A prepared transactional message becomes an ordinary published event exactly once when committed, never when rolled back, and its record is removed in both cases. If the publisher dies or fails at any point, the status checker is asked after the timeout, and a commit answer publishes exactly once, a rollback answer discards, and an unknown answer is asked again; a checker that fails for one message does not affect others. The context of a prepared message may be passed on to other calls and buses without mixing their messages.",
  ["crash_points", "fault_sequences", "histories"],
  "all points of failure between prepare, commit and clean-up, all sequences of checker answers, several instances",
  "The MySQL-only tests exercise one commit, one rollback and one timeout.",
  ["eventbus/mysql/eventbus.go", "eventbus/mysql/po.go"],
  [("message transaction", "eventbus/mysql/eventbus.go EventBus.DispatchBegin/Commit/Rollback"), ("status check", "eventbus/mysql/eventbus.go EventBus.handleTransactions/checkTX")],
  [("ddd_event_transaction", "prepared messages awaiting an outcome", "eventbus/mysql/po.go")],
  ["transaction, event and delivery tables; checker and handler calls"])
p("B08", "Clean-up removes only finished deliveries past retention",
  "Cleaning removes a delivery only if it succeeded and is older than the retention time, only for the cleaning service, and removes an event only when no service has a delivery for it left. Pending, retrying and failed deliveries and their events survive, everything eligible is removed, and cleaning concurrently with consumption or other cleaners, on any number of connections, causes no loss and no redelivery.",
  ["histories", "schedules", "inputs"],
  "all mixes of delivery states, ages and services, batch boundaries, concurrent cleaners",
  "MySQL-only tests with fixed data.",
  ["eventbus/mysql/eventbus.go"],
  [("clean-up", "eventbus/mysql/eventbus.go EventBus.cleanEvents")],
  observe=["tables before and after"])
p("B09", "A failing handler affects only its own delivery",
  "A handler that fails or panics, or a delivery whose predecessor is not ready, never prevents the other deliveries of the same scan from being handled, never stops the polling loop or the process, and has its failure recorded on its own delivery only.",
  ["inputs", "fault_sequences"],
  "all placements and kinds of failures among the deliveries of a scan, any worker count, huge failure messages",
  "Tests fail all deliveries alike.",
  ["eventbus/mysql/eventbus.go"],
  [("recovery", "eventbus/mysql/eventbus.go EventBus.handleEvent/handleEvents")],
  observe=["handler calls, delivery rows, process liveness"])
p("B10", "The in-memory event bus delivers in order, once, until stopped",
  "Events dispatched to the started in-memory bus are each handed to the handler exactly once; events of one dispatcher arrive in dispatch order, from a single worker however often it is started, and a failing or panicking handler does not stop delivery. After its context ends it delivers nothing further and uses no processor time.",
  ["schedules", "histories"],
  "any number of dispatchers, capacities, start calls and cancellation points",
  "One test sends one event.",
  ["eventbus/mem/eventbus.go"],
  [("delivery loop", "eventbus/mem/eventbus.go MemoryEventBus.Start")],
  observe=["handler calls"])
# ------------------------------------------------------------------ locks
p("L01", "At most one live holder per database lock",
  "At most one caller holds the database lock on a key at any time while its lease is live: from a successful acquisition until release or until the lease time passes without renewal. An acquisition attempt on a held key reports that the entity is locked and changes nothing, different keys do not interfere, and concurrent attempts on a free or expired key let exactly one succeed.",
  ["schedules", "histories"],
  "all interleavings of acquire, renew, expire and release by any number of clients",
  "Tests use one client.",
  ["lock/db/sql.go", "lock/db/po.go"],
  [("insert / compare-and-swap", "lock/db/sql.go DBLock.lock")],
  [("resource_lock", "current holder and last renewal per key", "lock/db/po.go")],
  ["acquire/release history checked against a lease model"])
p("L02", "Only the holder releases a lock, and abandoned locks are recoverable",
  "Releasing removes the lock only if the caller is still its holder; a former holder whose lease was taken over gets an error and the new holder keeps the lock. A released lock is acquirable at once and an abandoned one as soon as its lease time has passed, and not before; a lock configured to retry takes a key that becomes free while it is retrying.",
  ["histories", "schedules"],
  "all histories of acquisition, expiry, takeover and late release",
  "Tests cover the trivial sequence.",
  ["lock/db/sql.go"],
  [("owner id", "lock/db/sql.go DBLock.UnLock")],
  observe=["lock table and results"])
p("L03", "Running under a lock keeps it, and gives up when it is lost",
  "While a function runs under the lock, the lease is renewed so that nobody else acquires the key; if renewal fails or another client took over, the function's context is cancelled no later than the next renewal, and not without such a cause or the caller's own cancellation. When the function returns or panics the lock is released once and no background activity of that run remains; if the lock is not acquired the function is not run and the error is returned.",
  ["schedules", "histories", "fault_sequences"],
  "all function durations, takeovers, database faults, panics and cancellations",
  "One test with one duration.",
  ["lock/db/sql.go"],
  [("renewal", "lock/db/sql.go DBLock.Run/update")],
  observe=["competing acquisitions, context state, goroutine count"])
p("L04", "The redis lock excludes, expires and releases by owner",
  "At most one caller holds a key of the redis lock before its time to live ends; a contended acquisition is retried a bounded number of times and then reports that the entity is locked. Release frees the key only for its owner, an expired lock can be taken by another caller, and communication errors are reported as errors and never as success.",
  ["schedules", "fault_sequences"],
  "all interleavings of clients, expiries and connection faults",
  "The redis lock has no tests.",
  ["lock/redis/redis.go"],
  [("redislock client", "lock/redis/redis.go RedisLock.Lock/UnLock")],
  observe=["acquire/release history against a protocol-level redis stand-in"])
# ------------------------------------------------------------------ timer
p("T01", "Recurring timers fire on schedule, once per tick",
  "A recurring timer fires its handler with its key, expression and data at each scheduled tick, never before the tick, at most once per tick over all instances of the service (unless the firing instance dies or its database write after the handler fails), and no later than one poll interval after the tick when an instance is idle; ticks missed meanwhile are not made up for. A failing handler or a database fault neither stops the following ticks nor other timers, and the schedule survives restarts.",
  ["schedules", "histories", "fault_sequences"],
  "all cron expressions, poll intervals, instance counts, handler outcomes and database faults",
  "MySQL-only tests wait a few real seconds.",
  ["d_timer/sql/timer.go", "d_timer/sql/model.go"],
  [("job lock and reschedule", "d_timer/sql/timer.go DBTimer.handleJobs"), ("next tick", "d_timer/sql/model.go TimerJob.Next")],
  observe=["handler invocation times against the cron schedule"])
p("T02", "One-shot timers fire exactly once, at or after their time",
  "A one-shot timer fires exactly once (unless the firing instance dies or its database write after the handler fails), not before its time and no later than one poll after it when an instance is idle, across instances and restarts; a time in the past is rejected and schedules nothing. A handler error does not make it fire again.",
  ["schedules", "histories", "inputs"],
  "all times, instance counts, handler outcomes",
  "MySQL-only tests with one timer.",
  ["d_timer/sql/timer.go", "d_timer/sql/model.go"],
  [("one-shot close", "d_timer/sql/model.go TimerJob.Next/Close")],
  observe=["handler invocation times"])
p("T03", "Registering a timer again does not disturb it, cancelling stops it",
  "Registering a key that is already scheduled, from any instance and even concurrently, keeps the existing schedule and data and creates no second timer; an invalid expression is rejected and schedules nothing. Cancelling stops the timer before its next firing, leaves all other timers unaffected, and lets the key be scheduled anew.",
  ["histories", "schedules"],
  "all sequences of register, cancel and fire over several keys and instances",
  "MySQL-only tests with single steps.",
  ["d_timer/sql/timer.go"],
  [("idempotent insert", "d_timer/sql/timer.go DBTimer.run"), ("cancel", "d_timer/sql/timer.go DBTimer.Cancel")],
  observe=["timer table and handler invocations"])
# ------------------------------------------------------------------ integration
p("E01", "The full stack keeps database, events and handlers consistent",
  "With engine, SQL executor, database lock and database event bus used together as documented (commands lock every aggregate they change, locks outlive commands, handlers are idempotent), after any history of concurrent commands, statement errors, lost answers, process deaths and restarts the aggregates in the database equal the result of the committed commands in one serial order; a command that reports success has committed, one that fails before its commit leaves nothing; every service handles a transactional event if and only if its command committed, any other event at least if it did and never when the command failed before publishing; each event is published once, and ordered events reach the handlers in the order of the commands.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "all interleavings and fault points of full-stack workloads",
  "No test runs the components together with faults.",
  ["engine.go", "executor/mysql/executor.go", "eventbus/mysql/eventbus.go", "lock/db/sql.go", "example/biz/sale"],
  [("composition of engine, executor, bus and lock", "engine.go Stage.Save")],
  observe=["database rows, handler calls"])

p("E02", "The example order service stores, reports and announces what it was told",
  "Through the requests of the example order service (create, add item, add coupon, update, delete, get, list), whatever the number of clients and processes, a request that succeeds has exactly its effect, and one that fails has none or (when statements failed) all of it: an order holds the items and coupons added to it and no others, its stored and reported total is always the price of its items times their counts less its coupons, its remark is the last one set; get and list report exactly the stored orders that match; an order cannot be used or found after its deletion; and each created order, added item and added coupon, and each deletion, is announced once by an event of its own type that names the order and is sent by it.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all sequences and interleavings of requests with all arguments, with statement errors",
  "The example has no tests.",
  ["example/biz/sale", "example/handler", "example/common"],
  [("order aggregate", "example/biz/sale/domain/order.go Order.calPrice"), ("commands", "example/biz/sale/application/command"), ("queries", "example/biz/sale/infrastructure/dal/order.go")],
  observe=["HTTP replies, database rows, published events"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    print(len(P))
