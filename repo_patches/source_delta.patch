From c6a0a38c97809ef5a2f8ff2be4090e1403db25f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 01/47] fix: loading or removing a root no longer forgets
 unsaved additions and removals

---
 engine.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/engine.go b/engine.go
index ed20575..81f6fc1 100644
--- a/engine.go
+++ b/engine.go
@@ -210,7 +210,7 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 	if err := r.stage.meta.Add(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot()
+	return r.stage.trackRoots(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
@@ -226,7 +226,7 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		}
 	}
 
-	return r.stage.updateSnapshot()
+	return r.stage.trackRoots(roots...)
 }
 
 // Add 添加聚合根到仓库
@@ -253,7 +253,7 @@ func (r *Repository) Remove(roots ...IEntity) {
 	}
 	if len(toCreate) > 0 {
 		r.Add(toCreate...)
-		if err := r.stage.updateSnapshot(); err != nil {
+		if err := r.stage.trackRoots(toCreate...); err != nil {
 			r.appendError(err)
 			return
 		}
@@ -850,8 +850,30 @@ func (e *Stage) flush() error {
 
 // 更新快照，已有的不覆盖
 func (e *Stage) updateSnapshot() error {
-	return walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
-		if _, in := e.snapshot[entity]; in && entity != e.meta {
+	return e.snapshotTree(e.meta, nil)
+}
+
+// trackRoots 为新加载的聚合根建立快照，不改变其他聚合根的快照，避免丢失它们尚未保存的新增和删除
+func (e *Stage) trackRoots(roots ...IEntity) error {
+	metaSnapshot := e.snapshot[e.meta]
+	if metaSnapshot == nil {
+		metaSnapshot = &entitySnapshot{children: map[string][]IEntity{}}
+		e.snapshot[e.meta] = metaSnapshot
+	}
+	for _, root := range roots {
+		if err := e.snapshotTree(root, e.meta); err != nil {
+			return err
+		}
+		for key := range e.meta.GetChildren() {
+			metaSnapshot.children[key] = append(metaSnapshot.children[key], root)
+		}
+	}
+	return nil
+}
+
+func (e *Stage) snapshotTree(root, rootParent IEntity) error {
+	return walk(root, rootParent, func(entity, parent IEntity, children map[string][]IEntity) error {
+		if _, in := e.snapshot[entity]; in {
 			return nil
 		}
 
-- 
2.43.0


From e1ba3d4220ec96c6686dc4ef539b7e46e173855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 02/47] fix: accept a wrapped ErrEntityNotRegister when taking
 a snapshot

---
 engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 81f6fc1..5a1bcec 100644
--- a/engine.go
+++ b/engine.go
@@ -878,7 +878,7 @@ func (e *Stage) snapshotTree(root, rootParent IEntity) error {
 		}
 
 		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(ErrEntityNotRegister, err) {
+		if err != nil && !errors.Is(err, ErrEntityNotRegister) {
 			return err
 		}
 		e.snapshot[entity] = &entitySnapshot{
-- 
2.43.0


From fad8219934ea09efd00fa0e440f920f429780b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 03/47] fix: report the errors a RootContainer collected

---
 engine.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 5a1bcec..45a9a77 100644
--- a/engine.go
+++ b/engine.go
@@ -164,20 +164,20 @@ func (h DomainBuilder) Build(ctx context.Context, parent IEntity, children ...in
 // RootContainer 聚合根实体容器
 type RootContainer struct {
 	stage *Stage
-	errs  []error
+	errs  *ErrList // RootContainer 以值的方式传递给业务，错误需要通过指针收集
 }
 
 // Add 创建聚合根实体
 func (h *RootContainer) Add(root IEntity) {
 	if err := h.stage.meta.Add(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
 // Remove 删除聚合根实体
 func (h *RootContainer) Remove(root IEntity) {
 	if err := h.stage.meta.Remove(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
@@ -792,11 +792,12 @@ func (e *Stage) runCommand(ctx context.Context, c ICommand) *Result {
 			return err
 		}
 
-		container := RootContainer{stage: repo.stage}
+		errs := ErrList{}
+		container := RootContainer{stage: repo.stage, errs: &errs}
 		if err := c.Act(ctx, container, buildRoots...); err != nil {
 			return err
-		} else if len(container.errs) > 0 {
-			return ErrList(container.errs)
+		} else if len(errs) > 0 {
+			return errs
 		}
 		return nil
 	}).Save(ctx)
-- 
2.43.0


From 24d338fab7df939a6e74b5dbde200dad2434ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 04/47] fix: do not share post-save hooks between commands of
 one engine

---
 engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 45a9a77..4484fda 100644
--- a/engine.go
+++ b/engine.go
@@ -417,7 +417,10 @@ func WithIDGenerator(idGen IIDGenerator) IDGeneratorOption {
 type PostSaveOption PostSaveFunc
 
 func (t PostSaveOption) ApplyToOptions(opts *Options) {
-	opts.PostSaveHooks = append(opts.PostSaveHooks, PostSaveFunc(t))
+	// 拷贝一份，避免同个引擎的多个命令共享底层数组，互相覆盖
+	hooks := make([]PostSaveFunc, 0, len(opts.PostSaveHooks)+1)
+	hooks = append(hooks, opts.PostSaveHooks...)
+	opts.PostSaveHooks = append(hooks, PostSaveFunc(t))
 }
 
 func WithPostSave(f PostSaveFunc) PostSaveOption {
-- 
2.43.0


From efc76b84b8e730007f530d31b9c0a4d170954742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 05/47] fix: keep the cause of an ErrList recoverable with
 errors.Is

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 4484fda..8484859 100644
--- a/engine.go
+++ b/engine.go
@@ -129,6 +129,11 @@ func (e ErrList) Error() string {
 	return strings.Join(errs, ", ")
 }
 
+// Unwrap 支持 errors.Is 和 errors.As 识别原始错误
+func (e ErrList) Unwrap() []error {
+	return e
+}
+
 type Result struct {
 	Error   error
 	Break   bool
-- 
2.43.0


From 0ea9c6942220d77941bc3113750ce086bd9490b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 06/47] fix: sort a copy of the lock keys

---
 engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine.go b/engine.go
index 8484859..1d69014 100644
--- a/engine.go
+++ b/engine.go
@@ -1238,6 +1238,8 @@ type doSave func(ctx context.Context) *Result
 
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 	return func(ctx context.Context) *Result {
+		// 排序不能影响调用方的 slice，并发的命令可能共用一个
+		lockKeys := append([]string(nil), lockKeys...)
 		sort.Strings(lockKeys)
 		for i := 1; i < len(lockKeys); i++ {
 			if lockKeys[i] == lockKeys[i-1] {
-- 
2.43.0


From a284088c3e56e5fc8fe270111c6dcceb47cbcccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 07/47] fix: handle the children moved out of or detached from
 a removed entity

---
 engine.go   |  1 +
 snapshot.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/engine.go b/engine.go
index 1d69014..d953f10 100644
--- a/engine.go
+++ b/engine.go
@@ -912,6 +912,7 @@ func (e *Stage) unDirty() {
 
 func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	changed := entityDiff(e.meta, e.snapshot)
+	changed = append(changed, removedDiff(e.meta, changed, e.snapshot)...)
 	// 处理实体移动的场景
 	changed, err := handleEntityMove(changed)
 	if err != nil {
diff --git a/snapshot.go b/snapshot.go
index b32d016..b89f4a8 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -267,6 +267,65 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	return res
 }
 
+// removedDiff 识别被删除的实体下面子实体的变更，被删除的实体已经不在 root 的实体树上，entityDiff 不会处理
+// 已经移动到其他父实体的，后续可以判定为更新操作；已经脱离的，判定为删除操作
+func removedDiff(root IEntity, changedItems []*entityChanged, pool entitySnapshotPool) []*entityChanged {
+	alive := simpleSet{}
+	_ = walk(root, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
+		alive[entity] = 0
+		return nil
+	})
+
+	res := make([]*entityChanged, 0)
+	var diff func(entity IEntity)
+	diff = func(entity IEntity) {
+		if _, in := alive[entity]; in || pool[entity] == nil {
+			return
+		}
+		current := simpleSet{}
+		for _, children := range findChildren(entity) {
+			for _, c := range children {
+				current[c] = 0
+			}
+		}
+		keys := []string{}
+		for key := range pool[entity].children {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			prev := makeEntitySet(pool[entity].children[key])
+			deleted := simpleSet{}
+			for c, i := range prev {
+				_, isAlive := alive[c]
+				_, remain := current[c]
+				if isAlive || !remain {
+					deleted[c] = i
+				}
+			}
+			if !deleted.Empty() {
+				res = append(res, &entityChanged{
+					changeType: deleteChildren,
+					parent:     entity,
+					key:        key,
+					children:   deleted.ToSlice(),
+				})
+			}
+			for _, c := range prev.ToSlice() {
+				diff(c)
+			}
+		}
+	}
+	for _, item := range changedItems {
+		if item.changeType == deleteChildren {
+			for _, c := range item.children {
+				diff(c)
+			}
+		}
+	}
+	return res
+}
+
 func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 	// 按照 new, dirty, delete 的顺序排序
 	sort.SliceStable(changedItems, func(i, j int) bool {
-- 
2.43.0


From f33f0fcc16d9c0f160a3790f8b2021419afac6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 08/47] fix: recursive deletion deletes every entity once

---
 snapshot.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/snapshot.go b/snapshot.go
index b89f4a8..624eef5 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -362,11 +362,24 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 }
 
 func recursiveDelete(changed []*entityChanged) []*entityChanged {
+	// 已经判定为删除的实体不重复删除
+	deleted := simpleSet{}
+	for _, item := range changed {
+		if item.changeType == deleteChildren {
+			for _, c := range item.children {
+				deleted[c] = 0
+			}
+		}
+	}
 	for _, item := range changed {
 		if item.changeType == deleteChildren {
 			for _, c := range item.children {
 				if err := walk(c, item.parent, func(entity, parent IEntity, children map[string][]IEntity) error {
 					for key, entities := range children {
+						entities = makeEntitySet(entities).Diff(deleted).ToSlice()
+						for _, c := range entities {
+							deleted[c] = 0
+						}
 						changed = append(changed, &entityChanged{
 							changeType: deleteChildren,
 							parent:     entity,
-- 
2.43.0


From 80b847a399c6bf299ce90d5dda6fc9daf531b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 09/47] fix: roll back prepared messages when a command panics

---
 engine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine.go b/engine.go
index d953f10..05410be 100644
--- a/engine.go
+++ b/engine.go
@@ -1281,11 +1281,16 @@ func (e *Stage) runWithTransaction(f doSave) doSave {
 		if err != nil {
 			return ResultErrors(err)
 		}
+		committing := false
 		defer func() {
 			if r := recover(); r != nil {
 				if err := e.executor.RollBack(ctx); err != nil {
 					e.logger.Error(err, "rollback failed")
 				}
+				// 提交过程中的 panic 结果未知，依靠 eventbus 的回查机制确认最终结果
+				if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok && e.eventCtx != nil && !committing {
+					_ = txEventBus.Rollback(e.eventCtx)
+				}
 				panic(r)
 			}
 		}()
@@ -1302,6 +1307,7 @@ func (e *Stage) runWithTransaction(f doSave) doSave {
 			}
 			return result
 		}
+		committing = true
 		if err := e.executor.Commit(ctx); err != nil {
 			result.Error = err
 			e.logger.Error(err, "commit failed", "err", err)
-- 
2.43.0


From f186d8a84ccc852456ad5a8b6624696266f470e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 10/47] fix: moving several children of one parent at once

---
 snapshot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index 624eef5..72123db 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -334,7 +334,8 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 
 	entities := map[IEntity]*entityChanged{}
 	for _, item := range changedItems {
-		for _, entity := range item.children {
+		// 循环内会从 item.children 移除元素，遍历需要使用拷贝
+		for _, entity := range append([]IEntity(nil), item.children...) {
 			prev, ok := entities[entity]
 			if !ok {
 				entities[entity] = item
-- 
2.43.0


From e1edfd0ea339ad4eb71b75d8f8d59233d98349d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 11/47] fix: release the acquired locks when a later
 acquisition panics

---
 engine.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/engine.go b/engine.go
index 05410be..926d620 100644
--- a/engine.go
+++ b/engine.go
@@ -1250,6 +1250,13 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 
 		var lockErr error
 		ls := make([]interface{}, 0)
+		defer func() {
+			for _, l := range ls {
+				if err := e.locker.UnLock(ctx, l); err != nil {
+					e.logger.Error(err, "unlock failed")
+				}
+			}
+		}()
 		for _, id := range lockKeys {
 			l, err := e.locker.Lock(ctx, fmt.Sprintf("ddd_engine_%s", id))
 			if err != nil {
@@ -1260,14 +1267,6 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 			}
 			ls = append(ls, l)
 		}
-		defer func() {
-			for _, l := range ls {
-				if err := e.locker.UnLock(ctx, l); err != nil {
-					e.logger.Error(err, "unlock failed")
-				}
-			}
-		}()
-
 		if lockErr != nil {
 			return ResultErrors(lockErr)
 		}
-- 
2.43.0


From 9e30888b98d44f3ab65002fbc0811fe79ce6c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 12/47] fix: accept the checker results that registration
 accepts

---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6624c12..7da65b2 100644
--- a/event.go
+++ b/event.go
@@ -211,7 +211,7 @@ func onTXChecker(evt *DomainEvent) TXStatus {
 	}
 
 	outs := checker.f.Call([]reflect.Value{bizEvt})
-	return outs[0].Interface().(TXStatus)
+	return outs[0].Convert(txStatusType).Interface().(TXStatus)
 }
 
 type IEvent interface {
-- 
2.43.0


From effe8bf2fc367bfc0bbd49e8ad1b1d2db02844b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 13/47] fix: judge a delivery by its locked row, not by the
 scanned copy

---
 eventbus/mysql/eventbus.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index def97c7..e97fb27 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -555,9 +555,11 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
 			return err
 		}
-		// 二次确认下service_event 未被处理
-		if spo.Status != ServiceEventStatusInit {
-			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
+		// 加锁之前 service_event 可能已被其它实例处理，必须以加锁后读到的数据为准
+		*spo = *currentServiceEvent
+		// 二次确认下service_event 未被处理，且已到可执行时间
+		if spo.Status != ServiceEventStatusInit || spo.NextTime.After(time.Now()) {
+			e.logger.V(logger.LevelInfo).Info("current service_event is not runnable, ignore", "event_id", spo.EventID)
 			return nil
 		}
 		defer func() {
-- 
2.43.0


From cd85aaeeffa695b2f5056a505a475569660aed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 14/47] fix: pair scanned deliveries with their events by id

---
 eventbus/mysql/eventbus.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index e97fb27..511a2d1 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -425,13 +425,19 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
 		return nil, err
 	}
-	// eventPO与serviceEventPO 都按event id排序才能进行下一步
+	// 按 event id 配对，不能依赖下标，个别 event 记录缺失时下标会错位
+	eventByID := make(map[int64]*EventPO, len(eventPOs))
+	for _, eventPO := range eventPOs {
+		eventByID[eventPO.ID] = eventPO
+	}
 	events := make([]*EventTuple, 0)
-	for index, eventPO := range eventPOs {
-		events = append(events, &EventTuple{
-			ServiceEvent: serviceEventPOs[index],
-			Event:        eventPO,
-		})
+	for _, serviceEvent := range serviceEventPOs {
+		if eventPO, ok := eventByID[serviceEvent.EventID]; ok {
+			events = append(events, &EventTuple{
+				ServiceEvent: serviceEvent,
+				Event:        eventPO,
+			})
+		}
 	}
 	return events, nil
 }
-- 
2.43.0


From 2b952303ded7e9e157d30d93989d0e66d34db22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 15/47] fix: store published events and their deliveries in one
 transaction

---
 eventbus/mysql/eventbus.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 511a2d1..6ea2224 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -269,12 +269,13 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 	}
 	// return e.getDB(ctx).Create(pos).Error
 	// 在创建event的时候顺带创建service_event，在消费时创建service_event 非常复杂，必须联表查询容易导致慢sql 问题，且容易漏建service_event。
-	return e.db.Transaction(func(tx *gorm.DB) error {
-		if err := e.getDB(ctx).Create(pos).Error; err != nil {
+	// event 与 service_event 必须在同一个事务里创建，要么都有，要么都没有
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		// gorm 在创建po后为对象赋值主键自增id
+		if err := db.Create(pos).Error; err != nil {
 			return err
 		}
-		// gorm 在创建po后为对象赋值主键自增id
-		serviceNames, err := e.listService()
+		serviceNames, err := e.listService(db)
 		if err != nil {
 			return err
 		}
@@ -290,7 +291,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 					NextTime: po.EventCreatedAt,
 				}
 			}
-			if err := e.getDB(ctx).Create(spos).Error; err != nil {
+			if err := db.Create(spos).Error; err != nil {
 				return err
 			}
 		}
@@ -363,9 +364,9 @@ func (e *EventBus) initService() error {
 	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
 }
 
-func (e *EventBus) listService() ([]string, error) {
+func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
 	services := make([]*ServicePO, 0)
-	if err := e.db.Find(&services).Error; err != nil {
+	if err := db.Find(&services).Error; err != nil {
 		return nil, err
 	}
 	serviceNames := make([]string, 0)
-- 
2.43.0


From 8f039fbc119bcf3a7bbebf0c16918e1eea6049b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 16/47] fix: commit a transactional message atomically and
 always remove its record

---
 eventbus/mysql/eventbus.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 6ea2224..72573d2 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -326,18 +326,21 @@ func (e *EventBus) Commit(ctx context.Context) error {
 		return ErrNoTransaction
 	}
 
-	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != gorm.ErrRecordNotFound {
-		return err
-	}
-	if err == gorm.ErrRecordNotFound {
-		err := e.Dispatch(ctx, tx.Events...)
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		// 锁住事务记录，避免与反查并发提交时重复发布；记录不存在表示已经有结果
+		err := db.Clauses(clause.Locking{Strength: "UPDATE"}).First(&Transaction{}, tx.ID).Error
+		if err != nil && !errors.Is(err, gorm.ErrRecordNotFound) {
+			return err
+		}
+		err = db.Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
+		if errors.Is(err, gorm.ErrRecordNotFound) {
+			err = e.Dispatch(e.ctxWithDB(ctx, db), tx.Events...)
+		}
 		if err != nil {
 			return err
 		}
-	}
-
-	return e.getDB(ctx).Delete(tx).Error
+		return db.Delete(tx).Error
+	})
 }
 
 // Rollback 回滚事务消息
-- 
2.43.0


From b5e0904ca4684babc3cb065d855107ab1ad0b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 17/47] fix: a panicking transaction checker affects only its
 own message

---
 eventbus/mysql/eventbus.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 72573d2..4f83c24 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -645,6 +645,13 @@ func (e *EventBus) handleEvents() error {
 }
 
 func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
+	// 单个事务反查的 panic 不能影响其它事务，下次扫描会重新反查
+	defer func() {
+		if r := recover(); r != nil {
+			err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
+			e.logger.Error(err, fmt.Sprintf("panic while checking transaction(%d)", tx.ID))
+		}
+	}()
 	ctx = e.ctxWithTX(ctx, tx)
 	evt := tx.Events[0]
 	st := e.txChecker(evt)
-- 
2.43.0


From c42636cba095776a84704be1f51307417b498678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 18/47] fix: unordered events of a sender do not break the
 order of its ordered ones

---
 eventbus/mysql/eventbus.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 4f83c24..75617e4 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -501,17 +501,28 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 		e.logger.Error(err, "event_id", spo.EventID)
 		return err
 	}
-	// 找到前序event
+	// 找到前序event，同 sender 的非保序event 不参与保序，需要跳过，否则夹在中间的非保序event 会使保序失效
+	const batch = 100
 	precedingEvent := &EventPO{}
-	if err := tx.Where("sender = ?", eventPO.Sender).
-		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用event_id 明确下
-		Where("event_created_at <= ?", eventPO.EventCreatedAt).
-		Where("id < ?", eventPO.ID).
-		Order("event_created_at desc, event_id desc").Take(precedingEvent).Error; err != nil {
-		if !errors.Is(err, gorm.ErrRecordNotFound) {
+	for offset := 0; precedingEvent.ID == 0; offset += batch {
+		candidates := make([]*EventPO, 0)
+		if err := tx.Where("sender = ?", eventPO.Sender).
+			// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用 id 明确下
+			Where("event_created_at <= ?", eventPO.EventCreatedAt).
+			Where("id < ?", eventPO.ID).
+			Order("event_created_at desc, id desc").Offset(offset).Limit(batch).Find(&candidates).Error; err != nil {
 			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)
 			return err
 		}
+		for _, candidate := range candidates {
+			if candidate.Event.SendType == dddfirework.SendTypeFIFO || candidate.Event.SendType == dddfirework.SendTypeLaxFIFO {
+				precedingEvent = candidate
+				break
+			}
+		}
+		if len(candidates) < batch {
+			break
+		}
 	}
 	// 找不到前序event，则当前 event 可能是同sender的第一个event
 	if precedingEvent.ID == 0 {
-- 
2.43.0


From bb4b0955f8db10da6d2594a97b46263e384f6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 19/47] fix: blocked ordered events no longer use up the scan
 limit

---
 eventbus/mysql/eventbus.go | 62 ++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 75617e4..1518f57 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 	"unicode/utf8"
 
@@ -385,7 +386,8 @@ type EventTuple struct {
 }
 
 // getScanEvents 扫描待处理的event：status=init and 到达下次可执行时间的event
-func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error) {
+// 第二个返回值是下一页的起始 event id，0 表示没有下一页
+func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, int64, error) {
 	eventOffset := scanStartEventID
 	// 从service_event 视角查询最早的 需要的处理的event。通过计算 eventOffset来提高查询效率
 	earliestRunnableServiceEvent := &ServiceEventPO{}
@@ -394,9 +396,9 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 		Where("event_id >= ?", scanStartEventID).
 		Order("event_id").Take(earliestRunnableServiceEvent).Error; err != nil {
 		if !errors.Is(err, gorm.ErrRecordNotFound) {
-			return nil, err
+			return nil, 0, err
 		}
-		return nil, nil
+		return nil, 0, nil
 	}
 	if earliestRunnableServiceEvent.ID > 0 {
 		if eventOffset < earliestRunnableServiceEvent.ID {
@@ -417,9 +419,9 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 		Where("next_time <= ?", time.Now()).
 		Order("event_id").Limit(e.opt.LimitPerRun).Find(&serviceEventPOs).Error; err != nil {
 		if !errors.Is(err, gorm.ErrRecordNotFound) {
-			return nil, err
+			return nil, 0, err
 		}
-		return nil, nil
+		return nil, 0, nil
 	}
 	eventIds := make([]int64, 0)
 	for _, serviceEvent := range serviceEventPOs {
@@ -427,7 +429,7 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	}
 	eventPOs := make([]*EventPO, 0)
 	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	// 按 event id 配对，不能依赖下标，个别 event 记录缺失时下标会错位
 	eventByID := make(map[int64]*EventPO, len(eventPOs))
@@ -443,7 +445,11 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 			})
 		}
 	}
-	return events, nil
+	nextEventID := int64(0)
+	if count := len(serviceEventPOs); count > 0 && count == e.opt.LimitPerRun {
+		nextEventID = serviceEventPOs[count-1].EventID + 1
+	}
+	return events, nextEventID, nil
 }
 
 func (e *EventBus) doRetryStrategy(spo *ServiceEventPO) {
@@ -468,13 +474,15 @@ func (e *EventBus) doRetryStrategy(spo *ServiceEventPO) {
 	return
 }
 
-func (e *EventBus) dispatchEvents(ctx context.Context, eventPOs []*EventTuple, scanStartEventID int64) {
+// dispatchEvents 并发处理扫描到的event，返回因前序event 未就绪而没有执行的数量
+func (e *EventBus) dispatchEvents(ctx context.Context, eventPOs []*EventTuple, scanStartEventID int64) int {
 	eventChan := make(chan *EventTuple, len(eventPOs))
 	for _, e := range eventPOs {
 		eventChan <- e
 	}
 	close(eventChan)
 
+	blocked := int64(0)
 	wg := sync.WaitGroup{}
 	for i := 0; i < e.opt.ConsumeConcurrent; i++ {
 		wg.Add(1)
@@ -483,7 +491,9 @@ func (e *EventBus) dispatchEvents(ctx context.Context, eventPOs []*EventTuple, s
 			cb := func(ctx context.Context, po *EventPO, spo *ServiceEventPO) {
 				// 某个event 的处理成败，不影响后续事件的处理
 				// 对于保序事件，因为前序事件没有执行，后面同sender event也不用继续了。但毕竟后续还有非保序事件要处理，所以也不会因为ErrPrecedingEventNotReady 就终止事件消费流程
-				_ = e.handleEvent(ctx, po, spo, scanStartEventID)
+				if err := e.handleEvent(ctx, po, spo, scanStartEventID); errors.Is(err, ErrPrecedingEventNotReady) {
+					atomic.AddInt64(&blocked, 1)
+				}
 			}
 			for po := range eventChan {
 				cb(ctx, po.Event, po.ServiceEvent)
@@ -491,7 +501,7 @@ func (e *EventBus) dispatchEvents(ctx context.Context, eventPOs []*EventTuple, s
 		}()
 	}
 	wg.Wait()
-	return
+	return int(blocked)
 }
 
 func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *ServiceEventPO, scanStartEventID int64) error {
@@ -568,6 +578,7 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 // handleEvent, 多实例并发场景下先锁住service_event，如果是保序event，则check前序event状态，check通过后，执行event handler
 // 执行成功，则保存执行结果，执行失败则根据RetryStrategy更新retryCount/nextTime/failedMessage
 func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEventPO, scanStartEventID int64) error {
+	notReady := false
 	// 下面的db 操作一定要全部使用 tx
 	fn := func(tx *gorm.DB) (err error) {
 		// 找到并锁住serviceEvent，只能锁service_event。如果锁event，则其他service在消费event也会尝试锁event
@@ -605,6 +616,7 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 		// 如果是保序event，则校验前序event的执行结果
 		if po.Event.SendType == dddfirework.SendTypeFIFO || po.Event.SendType == dddfirework.SendTypeLaxFIFO {
 			if err = e.checkPrecedingEvent(tx, po, spo, scanStartEventID); err != nil {
+				notReady = errors.Is(err, ErrPrecedingEventNotReady)
 				spo.FailedMessage = fmt.Sprintf("%v", err)
 				return err
 			}
@@ -620,7 +632,13 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 		}
 		return nil
 	}
-	return e.db.Transaction(fn)
+	if err := e.db.Transaction(fn); err != nil {
+		return err
+	}
+	if notReady {
+		return ErrPrecedingEventNotReady
+	}
+	return nil
 }
 
 func (e *EventBus) handleEvents() error {
@@ -641,16 +659,20 @@ func (e *EventBus) handleEvents() error {
 		}
 		return err
 	}
-	scanEvents, err := e.getScanEvents(scanStartEvent.ID)
-	if err != nil {
-		e.logger.Error(err, "getScanEvents error")
-		return err
-	}
-	if len(scanEvents) == 0 {
-		e.logger.Info("find empty service_event, ignore")
-		return nil
+	// 前序event 未就绪的event 会一直被扫描到，需要继续往后扫描，否则它们占满 LimitPerRun 后，其它event 永远得不到处理
+	handled := 0
+	for offset := scanStartEvent.ID; offset > 0 && handled < e.opt.LimitPerRun; {
+		scanEvents, nextOffset, err := e.getScanEvents(offset)
+		if err != nil {
+			e.logger.Error(err, "getScanEvents error")
+			return err
+		}
+		if len(scanEvents) == 0 {
+			e.logger.Info("find empty service_event, ignore")
+		}
+		handled += len(scanEvents) - e.dispatchEvents(ctx, scanEvents, scanStartEvent.ID)
+		offset = nextOffset
 	}
-	e.dispatchEvents(ctx, scanEvents, scanStartEvent.ID)
 	e.logger.Info("handle events end")
 	return nil
 }
-- 
2.43.0


From 3f2879f514977674fa4f5044f514cd97bcaf43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 20/47] fix: reject ordered events without a sender when
 publishing

---
 eventbus/mysql/po.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eventbus/mysql/po.go b/eventbus/mysql/po.go
index 5d993e0..9c06896 100644
--- a/eventbus/mysql/po.go
+++ b/eventbus/mysql/po.go
@@ -16,6 +16,7 @@
 package mysql
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/bytedance/dddfirework"
@@ -133,6 +134,11 @@ func (o *ServicePO) TableName() string {
 }
 
 func eventPersist(event *dddfirework.DomainEvent) (*EventPO, error) {
+	// 没有 sender 的保序事件无法被消费，发布时就要报错，不能静默丢失
+	ordered := event.SendType == dddfirework.SendTypeFIFO || event.SendType == dddfirework.SendTypeLaxFIFO
+	if ordered && event.Sender == "" {
+		return nil, fmt.Errorf("event sender can not be empty when send type is %s", event.SendType)
+	}
 	return &EventPO{
 		EventID:        event.ID,
 		Sender:         event.Sender,
-- 
2.43.0


From 00bfe6619ebf5dc7264e9e0db2ec13fd271833ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 21/47] fix: record failure messages that are not valid UTF-8

---
 eventbus/mysql/eventbus.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 1518f57..ae09f1a 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -601,10 +602,11 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 				e.doRetryStrategy(spo)
 				spo.FailedMessage = fmt.Sprintf("%v", err)
 			}
-			// 65535 是FailedMessage 字段的db类型长度
+			// 65535 是FailedMessage 字段的db类型长度，截断可能产生非法的utf8 字符，db 会拒绝写入
 			if len(spo.FailedMessage) > 65535 {
 				spo.FailedMessage = spo.FailedMessage[:65535]
 			}
+			spo.FailedMessage = strings.ToValidUTF8(spo.FailedMessage, "")
 			spo.RunAt = time.Now()
 			// 插入或更新 service_event。 此处必须覆盖掉err 的值，目的是保证service_event 一定进到db
 			if err = tx.Save(spo).Error; err != nil {
-- 
2.43.0


From 82d23c7cbbc897a5416ebefd3d50e8b971d4e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 22/47] fix: do not take over a database lock that was renewed
 meanwhile

---
 lock/db/sql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 9657786..14e3536 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -115,9 +115,10 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		// key is locked
 		return nil, dddfirework.ErrEntityLocked
 	}
-	// 有记录但是数据过期
+	// 有记录但是数据过期，更新时再次确认未被续期，否则会抢走刚续期的锁
 	res := r.db.WithContext(ctx).Model(&ResourceLock{}).Where("resource = ?", key).
 		Where("locker_id = ?", lock.LockerID).
+		Where("updated_at <= ?", time.Now().Add(-r.ttl)).
 		UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})
 
 	if res.Error != nil {
-- 
2.43.0


From 8ffc1c23b4235906a8dff7d599d71eaec1985eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 23/47] fix: end the renewal of DBLock.Run with it and release
 under a cancelled context

The renewing goroutine never ended (it ranged over a ticker's channel, which is
not closed by Stop) and wrote the result variable concurrently with the deferred
release; with a cancelled context the lock was not released at all.
---
 lock/db/sql.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 14e3536..7ee2836 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -159,28 +159,49 @@ func (r *DBLock) update(ctx context.Context, keyLock interface{}) error {
 	return nil
 }
 
+// detachedCtx 保留 ctx 的值，但不受其取消的影响
+type detachedCtx struct {
+	context.Context
+}
+
+func (detachedCtx) Deadline() (deadline time.Time, ok bool) { return }
+func (detachedCtx) Done() <-chan struct{}                   { return nil }
+func (detachedCtx) Err() error                              { return nil }
+
 func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Context)) error {
 	locker, err := r.Lock(ctx, key)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		if err = r.UnLock(ctx, locker); err != nil {
+		// ctx 可能已经取消，仍然需要释放锁
+		if err := r.UnLock(detachedCtx{ctx}, locker); err != nil {
 			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
 		}
 	}() // pass parent ctx in here, or defer will use sub ctx below
 
 	ticker := time.NewTicker(r.opt.RenewInterval)
-	// 业务函数执行完成后，会停止renew 协程
 	defer ticker.Stop()
 	subCtx, cancel := context.WithCancel(ctx)
+	renewDone := make(chan struct{})
+	// 业务函数执行完成后，会停止renew 协程，并等待其退出后再释放锁
+	defer func() {
+		cancel()
+		<-renewDone
+	}()
 	go func() {
-		for range ticker.C {
-			if err = r.update(ctx, locker); err != nil {
+		defer close(renewDone)
+		for {
+			select {
+			case <-subCtx.Done():
+				return
+			case <-ticker.C:
+			}
+			if err := r.update(subCtx, locker); err != nil {
 				// 续期失败，会通知业务函数停止执行
 				cancel()
 				r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
-				break
+				return
 			}
 		}
 	}()
-- 
2.43.0


From e2eb962d75bc74d741f01fa78540dd5542cd3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 24/47] fix: report a contended redis lock as locked when the
 ttl bounds the retries

With a ttl below three seconds redislock gives up with its own deadline, which
was passed on as context.DeadlineExceeded. The returned lock is a nil interface
when there is an error.
---
 lock/redis/redis.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lock/redis/redis.go b/lock/redis/redis.go
index 90a6e92..62ad71f 100644
--- a/lock/redis/redis.go
+++ b/lock/redis/redis.go
@@ -35,13 +35,21 @@ func NewRedisLock(cli *redis.Client, ttl time.Duration) *RedisLock {
 }
 
 func (r *RedisLock) Lock(ctx context.Context, key string) (keyLock interface{}, err error) {
-	if keyLock, err = r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{
+	l, err := r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{
 		// 默认固定间隔重试，最大重试30次
 		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
-	); err == redislock.ErrNotObtained {
+	)
+	if err == redislock.ErrNotObtained {
 		return nil, dddfirework.ErrEntityLocked
 	}
-	return
+	// ctx 没有设置 deadline 时，redislock 会以 ttl 作为重试的总时限，此时同样是因为锁被占用
+	if err == context.DeadlineExceeded && ctx.Err() == nil {
+		return nil, dddfirework.ErrEntityLocked
+	}
+	if err != nil {
+		return nil, err
+	}
+	return l, nil
 }
 
 func (r *RedisLock) UnLock(ctx context.Context, keyLock interface{}) error {
-- 
2.43.0


From a5a167b264d4780ad0d85650d90c9b3cae02d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 25/47] fix: report a lost race for a free database lock as
 locked without TranslateError

gorm translates a duplicate key to ErrDuplicatedKey only with TranslateError,
which the documented set-up does not turn on: the loser got the raw error and
was not retried.
---
 lock/db/sql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 7ee2836..169202f 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -103,6 +103,10 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		l := &ResourceLock{Resource: key, LockerID: lockerID}
 		err = r.db.WithContext(ctx).Create(l).Error
 		if err != nil {
+			// gorm 只有开启 TranslateError 才会返回 ErrDuplicatedKey
+			if translator, ok := r.db.Dialector.(gorm.ErrorTranslator); ok {
+				err = translator.Translate(err)
+			}
 			if errors.Is(err, gorm.ErrDuplicatedKey) {
 				return nil, dddfirework.ErrEntityLocked
 			}
-- 
2.43.0


From 30879c39708736b784048129c84478828c014230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 26/47] fix: do not report a redis that does not answer as a
 held lock

---
 lock/redis/redis.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lock/redis/redis.go b/lock/redis/redis.go
index 62ad71f..36fe75c 100644
--- a/lock/redis/redis.go
+++ b/lock/redis/redis.go
@@ -34,16 +34,26 @@ func NewRedisLock(cli *redis.Client, ttl time.Duration) *RedisLock {
 	return &RedisLock{cli: redislock.New(cli), ttl: ttl}
 }
 
+// refusedRetry 记录加锁是否因为锁被占用而重试过
+type refusedRetry struct {
+	redislock.RetryStrategy
+	refused bool
+}
+
+func (r *refusedRetry) NextBackoff() time.Duration {
+	r.refused = true
+	return r.RetryStrategy.NextBackoff()
+}
+
 func (r *RedisLock) Lock(ctx context.Context, key string) (keyLock interface{}, err error) {
-	l, err := r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{
-		// 默认固定间隔重试，最大重试30次
-		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
-	)
+	// 默认固定间隔重试，最大重试30次
+	retry := &refusedRetry{RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)}
+	l, err := r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{RetryStrategy: retry})
 	if err == redislock.ErrNotObtained {
 		return nil, dddfirework.ErrEntityLocked
 	}
-	// ctx 没有设置 deadline 时，redislock 会以 ttl 作为重试的总时限，此时同样是因为锁被占用
-	if err == context.DeadlineExceeded && ctx.Err() == nil {
+	// ctx 没有设置 deadline 时，redislock 会以 ttl 作为重试的总时限，被拒绝过才说明锁被占用
+	if err == context.DeadlineExceeded && ctx.Err() == nil && retry.refused {
 		return nil, dddfirework.ErrEntityLocked
 	}
 	if err != nil {
-- 
2.43.0


From f8daa7dbc7cdc6383eeccf6a9bcdf5cdf306208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 27/47] fix: stop the in-memory event bus with its context and
 survive handler panics

---
 eventbus/mem/eventbus.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 5e75442..9f89045 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -17,6 +17,8 @@ package mem
 
 import (
 	"context"
+	"log"
+	"runtime/debug"
 	"sync"
 
 	"github.com/bytedance/dddfirework"
@@ -46,14 +48,28 @@ func (e *MemoryEventBus) RegisterEventHandler(cb dddfirework.DomainEventHandler)
 	e.cb = cb
 }
 
+// handle 处理单个事件，失败（包括 panic）不影响后续事件
+func (e *MemoryEventBus) handle(ctx context.Context, evt *dddfirework.DomainEvent) {
+	defer func() {
+		if r := recover(); r != nil {
+			log.Printf("handle event %s panic: %v\n%s", evt.ID, r, debug.Stack())
+		}
+	}()
+	_ = e.cb(ctx, evt)
+}
+
 func (e *MemoryEventBus) Start(ctx context.Context) {
 	run := func() {
 		for {
 			select {
 			case evt := <-e.ch:
-				_ = e.cb(ctx, evt)
+				// 事件和 ctx 同时就绪时 select 随机选择，ctx 结束后不再处理事件
+				if ctx.Err() != nil {
+					return
+				}
+				e.handle(ctx, evt)
 			case <-ctx.Done():
-				break
+				return
 			}
 		}
 	}
-- 
2.43.0


From cd4ca275f767d71dadf21941391018d561f461d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 28/47] fix: cancel only the timers of the own service

---
 d_timer/sql/timer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 8d39b7b..88913dd 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -90,7 +90,7 @@ func (t *DBTimer) RunOnce(key string, runTime time.Time, data []byte) error {
 }
 
 func (t *DBTimer) Cancel(key string) error {
-	return t.db.Unscoped().Where(TimerJob{Key: key}).Delete(&TimerJob{}).Error
+	return t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{}).Error
 }
 
 func (t *DBTimer) run(job *TimerJob) error {
-- 
2.43.0


From 2f426fcfc03f37c0f0ded9c04c8e1b7e81b2835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 29/47] fix: concurrent registrations of one timer key all
 succeed

---
 d_timer/sql/timer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 88913dd..eb65184 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -97,10 +97,16 @@ func (t *DBTimer) run(job *TimerJob) error {
 	if err := job.Reset(); err != nil {
 		return err
 	}
-	return t.db.Where(TimerJob{
+	cond := TimerJob{
 		Service: t.service,
 		Key:     job.Key,
-	}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	}
+	err := t.db.Where(cond).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	if err != nil && t.db.Where(cond).Take(&TimerJob{}).Error == nil {
+		// 其它实例同时注册了相同的 key，保留已有的定时
+		return nil
+	}
+	return err
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
-- 
2.43.0


From 03a6282529e9db6a5bdcae3db9fcecb413621449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 30/47] fix: keep the fraction of a second of a timer's time,
 rounding fired it early

---
 d_timer/sql/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d_timer/sql/model.go b/d_timer/sql/model.go
index 3ac8f65..9dce653 100644
--- a/d_timer/sql/model.go
+++ b/d_timer/sql/model.go
@@ -15,7 +15,7 @@ type TimerJob struct {
 	Service   string      `gorm:"column:service;type:varchar(30)"`
 	Key       string      `gorm:"column:key;type:varchar(30);uniqueIndex;not null"`
 	Cron      string      `gorm:"column:cron;type:varchar(30);null"`
-	NextTime  time.Time   `gorm:"column:next_time;type:datetime;index;not null"`
+	NextTime  time.Time   `gorm:"column:next_time;type:datetime(3);index;not null"`
 	Status    TimerStatus `gorm:"column:status;type:tinyint"`
 	Msg       string      `gorm:"column:msg;type:varchar(128)"`
 	Payload   []byte      `gorm:"column:payload;type:text"`
-- 
2.43.0


From d621cd171f434e4ee65a15219e5f8ba29c45003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 31/47] fix: a panicking timer callback no longer ends the
 process

---
 d_timer/sql/timer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index eb65184..95fa375 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -2,8 +2,10 @@ package sql
 
 import (
 	"context"
+	"fmt"
 	stdlog "log"
 	"os"
+	"runtime/debug"
 	"sync"
 	"time"
 
@@ -136,7 +138,7 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 				return nil
 			}
 
-			if err := t.cb(ctx, job.Key, job.Cron, job.Payload); err != nil {
+			if err := t.runCallback(ctx, job); err != nil {
 				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
 			}
 			if err := job.Next(); err != nil {
@@ -158,6 +160,16 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 	return nil
 }
 
+// runCallback 执行回调，panic 视为执行失败
+func (t *DBTimer) runCallback(ctx context.Context, job *TimerJob) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("timer callback panic: %v\n%s", r, debug.Stack())
+		}
+	}()
+	return t.cb(ctx, job.Key, job.Cron, job.Payload)
+}
+
 func (t *DBTimer) Start(ctx context.Context) {
 	t.once.Do(func() {
 		run := func() {
-- 
2.43.0


From b826d2a532410300bbbe492055e04fa0dee3d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 32/47] fix: register the timer handler safely while the timer
 is polling

---
 d_timer/sql/timer.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 95fa375..0a4ac61 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -43,6 +43,7 @@ type DBTimer struct {
 	opt     Options
 	logger  logr.Logger
 	once    sync.Once
+	mu      sync.RWMutex // 保护 cb
 }
 
 func NewDBTimer(service string, db *gorm.DB, opts ...Option) *DBTimer {
@@ -112,10 +113,23 @@ func (t *DBTimer) run(job *TimerJob) error {
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.cb = cb
 }
 
+func (t *DBTimer) handler() ddd.TimerHandler {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return t.cb
+}
+
 func (t *DBTimer) handleJobs(ctx context.Context) error {
+	cb := t.handler()
+	if cb == nil {
+		// 还没有注册回调，到期的任务留到注册之后执行
+		return nil
+	}
 	jobs := make([]*TimerJob, 0)
 	if err := t.db.Where(
 		"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,
@@ -138,7 +152,7 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 				return nil
 			}
 
-			if err := t.runCallback(ctx, job); err != nil {
+			if err := runCallback(ctx, cb, job); err != nil {
 				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
 			}
 			if err := job.Next(); err != nil {
@@ -161,13 +175,13 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 }
 
 // runCallback 执行回调，panic 视为执行失败
-func (t *DBTimer) runCallback(ctx context.Context, job *TimerJob) (err error) {
+func runCallback(ctx context.Context, cb ddd.TimerHandler, job *TimerJob) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			err = fmt.Errorf("timer callback panic: %v\n%s", r, debug.Stack())
 		}
 	}()
-	return t.cb(ctx, job.Key, job.Cron, job.Payload)
+	return cb(ctx, job.Key, job.Cron, job.Payload)
 }
 
 func (t *DBTimer) Start(ctx context.Context) {
-- 
2.43.0


From 8a413de100549ae1d40c52151e2048d37cdd3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 33/47] fix: register event handlers safely while the event
 buses are delivering

---
 eventbus/mem/eventbus.go   | 11 ++++++++++-
 eventbus/mysql/eventbus.go | 23 ++++++++++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 9f89045..bc9814c 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -29,6 +29,7 @@ type MemoryEventBus struct {
 	cb dddfirework.DomainEventHandler
 
 	once sync.Once
+	mu   sync.RWMutex // 保护 cb，每个命令执行时都会重新注册
 }
 
 func NewEventBus(capacity int) *MemoryEventBus {
@@ -45,9 +46,17 @@ func (e *MemoryEventBus) Dispatch(ctx context.Context, evts ...*dddfirework.Doma
 }
 
 func (e *MemoryEventBus) RegisterEventHandler(cb dddfirework.DomainEventHandler) {
+	e.mu.Lock()
+	defer e.mu.Unlock()
 	e.cb = cb
 }
 
+func (e *MemoryEventBus) handler() dddfirework.DomainEventHandler {
+	e.mu.RLock()
+	defer e.mu.RUnlock()
+	return e.cb
+}
+
 // handle 处理单个事件，失败（包括 panic）不影响后续事件
 func (e *MemoryEventBus) handle(ctx context.Context, evt *dddfirework.DomainEvent) {
 	defer func() {
@@ -55,7 +64,7 @@ func (e *MemoryEventBus) handle(ctx context.Context, evt *dddfirework.DomainEven
 			log.Printf("handle event %s panic: %v\n%s", evt.ID, r, debug.Stack())
 		}
 	}()
-	_ = e.cb(ctx, evt)
+	_ = e.handler()(ctx, evt)
 }
 
 func (e *MemoryEventBus) Start(ctx context.Context) {
diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index ae09f1a..7b29f9e 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -167,6 +167,7 @@ type EventBus struct {
 	cb        dddfirework.DomainEventHandler
 	cleanCron *cron.Cron
 	once      sync.Once
+	mu        sync.RWMutex // 保护 cb 和 txChecker，每个命令执行时都会重新注册
 }
 
 // NewEventBus 提供领域事件直接持久化到数据库，异步查询事件并推送的功能
@@ -302,9 +303,17 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 }
 
 func (e *EventBus) RegisterEventTXChecker(checker dddfirework.DomainEventTXChecker) {
+	e.mu.Lock()
+	defer e.mu.Unlock()
 	e.txChecker = checker
 }
 
+func (e *EventBus) checker() dddfirework.DomainEventTXChecker {
+	e.mu.RLock()
+	defer e.mu.RUnlock()
+	return e.txChecker
+}
+
 // DispatchBegin 开启事务消息
 func (e *EventBus) DispatchBegin(ctx context.Context, evts ...*dddfirework.DomainEvent) (context.Context, error) {
 	if len(evts) == 0 {
@@ -361,9 +370,17 @@ func (e *EventBus) onPostSave(ctx context.Context, res *dddfirework.Result) {
 }
 
 func (e *EventBus) RegisterEventHandler(cb dddfirework.DomainEventHandler) {
+	e.mu.Lock()
+	defer e.mu.Unlock()
 	e.cb = cb
 }
 
+func (e *EventBus) handler() dddfirework.DomainEventHandler {
+	e.mu.RLock()
+	defer e.mu.RUnlock()
+	return e.cb
+}
+
 func (e *EventBus) initService() error {
 	service := &ServicePO{}
 	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
@@ -624,7 +641,7 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			}
 		}
 		e.logger.V(logger.LevelInfo).Info("eventbus handle event", "event db id", spo.EventID, "event id", po.EventID)
-		err = e.cb(ctx, po.Event)
+		err = e.handler()(ctx, po.Event)
 		if err != nil {
 			// 更新 retry_limit 以及 next_time，超出重试限制，则status置为失败。为了支持自定义RetryStrategy，所以通过NextTime 而不是RunAt来控制重试间隔
 			e.doRetryStrategy(spo)
@@ -689,7 +706,7 @@ func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
 	}()
 	ctx = e.ctxWithTX(ctx, tx)
 	evt := tx.Events[0]
-	st := e.txChecker(evt)
+	st := e.checker()(evt)
 	if st == dddfirework.TXCommit {
 		if err := e.Commit(ctx); err != nil {
 			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")
@@ -805,7 +822,7 @@ func (e *EventBus) Start(ctx context.Context) {
 				e.logger.Error(err, "handle transaction failed")
 			}
 
-			if e.cb != nil {
+			if e.handler() != nil {
 				if err := e.handleEvents(); err != nil {
 					if errors.Is(err, ErrServiceNotCreate) {
 						_ = e.initService()
-- 
2.43.0


From 6784a217afff5a22769efba178f173312249f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 34/47] fix: keep the transactions of executors created in the
 same second apart

---
 executor/mysql/executor.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 8c8a3e2..d0ebcda 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -19,7 +19,6 @@ import (
 	"context"
 	"fmt"
 	"reflect"
-	"time"
 
 	ddd "github.com/bytedance/dddfirework"
 	"gorm.io/gorm"
@@ -137,21 +136,25 @@ var opMap = map[ddd.OpType]execFunc{
 	},
 }
 
-// 确保外面拿不到内部的 key
-type contextKey string
+// 确保外面拿不到内部的 key，并且不同的 Executor 之间互不影响
+type contextKey struct {
+	executor *Executor
+}
 
 type Executor struct {
-	db    *gorm.DB
-	txKey contextKey
+	db *gorm.DB
 }
 
 func NewExecutor(db *gorm.DB) *Executor {
 	return &Executor{
-		db:    db,
-		txKey: contextKey(fmt.Sprintf("executor_tx_%d", time.Now().Unix())),
+		db: db,
 	}
 }
 
+func (e *Executor) txKey() contextKey {
+	return contextKey{executor: e}
+}
+
 func (e *Executor) Begin(ctx context.Context) (context.Context, error) {
 	if ctx == nil {
 		ctx = context.Background()
@@ -164,14 +167,14 @@ func (e *Executor) Begin(ctx context.Context) (context.Context, error) {
 	if tx.Error != nil {
 		return ctx, fmt.Errorf("start transation failed, err=%s", tx.Error)
 	}
-	return context.WithValue(ctx, e.txKey, tx), nil
+	return context.WithValue(ctx, e.txKey(), tx), nil
 }
 
 func (e *Executor) Commit(ctx context.Context) error {
 	if e.db == nil {
 		return ErrInvalidDB
 	}
-	val := ctx.Value(e.txKey)
+	val := ctx.Value(e.txKey())
 	if val == nil {
 		return ErrNoTransaction
 	}
@@ -184,7 +187,7 @@ func (e *Executor) RollBack(ctx context.Context) error {
 	if e.db == nil {
 		return ErrInvalidDB
 	}
-	val := ctx.Value(e.txKey)
+	val := ctx.Value(e.txKey())
 	if val == nil {
 		return ErrNoTransaction
 	}
@@ -220,7 +223,7 @@ func (e *Executor) Diff(ctx context.Context, curr, prev ddd.IModel) ddd.IModel {
 func (e *Executor) Exec(ctx context.Context, action *ddd.Action) error {
 	db := e.db
 
-	val := ctx.Value(e.txKey)
+	val := ctx.Value(e.txKey())
 	if val != nil {
 		db = val.(*gorm.DB)
 	}
-- 
2.43.0


From a4c6e5a85f85405d8ee27901a8955815b74b8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 35/47] fix: quote the primary key in deletes and look it up
 with the own naming strategy

---
 executor/mysql/diff.go     |  3 ---
 executor/mysql/executor.go | 16 ++++++++--------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index e93aecc..3cd4ffa 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -18,11 +18,8 @@ package mysql
 import (
 	"reflect"
 	"strings"
-	"sync"
 )
 
-var schemaCache = &sync.Map{}
-
 func hasValue(tag, attr string) bool {
 	parts := strings.Split(tag, ";")
 	for _, p := range parts {
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index d0ebcda..7203f3e 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -22,7 +22,7 @@ import (
 
 	ddd "github.com/bytedance/dddfirework"
 	"gorm.io/gorm"
-	"gorm.io/gorm/schema"
+	"gorm.io/gorm/clause"
 )
 
 var ErrInvalidDB = fmt.Errorf("invalid db")
@@ -103,24 +103,24 @@ var opMap = map[ddd.OpType]execFunc{
 	},
 	ddd.OpDelete: func(db *gorm.DB, a *ddd.Action) error {
 		po := a.Models[0]
-		s, err := schema.Parse(po, schemaCache, db.NamingStrategy)
-		if err != nil {
+		stmt := &gorm.Statement{DB: db}
+		if err := stmt.Parse(po); err != nil {
 			return err
 		}
 
-		if len(s.PrimaryFields) == 1 {
+		if len(stmt.Schema.PrimaryFields) == 1 {
 			// 单主键支持批量删除
-			pk := s.PrimaryFields[0].DBName
+			pk := clause.Column{Table: clause.CurrentTable, Name: stmt.Schema.PrimaryFields[0].DBName}
 			poType := reflect.Indirect(reflect.ValueOf(po)).Type()
 			newPO := reflect.New(poType).Interface()
 			if len(a.Models) == 1 {
-				return db.Where(pk+" = ?", a.Models[0].GetID()).Delete(newPO).Error
+				return db.Where(clause.Eq{Column: pk, Value: a.Models[0].GetID()}).Delete(newPO).Error
 			}
-			ids := make([]string, 0)
+			ids := make([]interface{}, 0)
 			for _, m := range a.Models {
 				ids = append(ids, m.GetID())
 			}
-			return db.Where(pk+" in ?", ids).Delete(newPO).Error
+			return db.Where(clause.IN{Column: pk, Values: ids}).Delete(newPO).Error
 		}
 		// 复合主键的一个个删
 		for _, m := range a.Models {
-- 
2.43.0


From fa61e47ce7c4a8b3cd187ec6c52c633bb1acc1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 36/47] fix: update exactly the columns whose value changed

---
 executor/mysql/diff.go     | 60 ++++++++++++++++++++++++++++++++++++++
 executor/mysql/executor.go | 10 +++++--
 2 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index 3cd4ffa..52a060e 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -18,6 +18,9 @@ package mysql
 import (
 	"reflect"
 	"strings"
+	"time"
+
+	"gorm.io/gorm/schema"
 )
 
 func hasValue(tag, attr string) bool {
@@ -105,3 +108,60 @@ func DiffModel(curr, prev interface{}) []string {
 	}
 	return diffStruct(currVal, prevVal)
 }
+
+// diffColumns 返回有变化的列名，以及有变化的关联字段名
+// 不同的 embedded 结构可以有同名字段，字段名不足以确定列，所以这里以 schema 中的列为准
+func diffColumns(s *schema.Schema, curr, prev interface{}) []string {
+	currVal, prevVal := reflect.Indirect(reflect.ValueOf(curr)), reflect.Indirect(reflect.ValueOf(prev))
+	if currVal.Kind() != reflect.Struct || prevVal.Kind() != reflect.Struct || currVal.Type() != prevVal.Type() {
+		return DiffModel(curr, prev)
+	}
+	result := make([]string, 0)
+	for _, field := range s.Fields {
+		if field.DBName == "" || field.PrimaryKey {
+			continue
+		}
+		a, b := boundField(currVal, field), boundField(prevVal, field)
+		if columnChanged(a, b) {
+			result = append(result, field.DBName)
+		}
+	}
+	for _, name := range DiffModel(curr, prev) {
+		if _, ok := s.Relationships.Relations[name]; ok {
+			result = append(result, name)
+		}
+	}
+	return result
+}
+
+func columnChanged(a, b reflect.Value) bool {
+	if a.IsValid() != b.IsValid() {
+		return true // embedded 指针变为 nil，或者由 nil 变为非 nil
+	}
+	if _, diff := diffValue(a, b); !diff {
+		return false
+	}
+	// 结构的未导出字段（如 time.Time 的时区、decimal 的 big.Int）无法逐个比较，以整体的值为准
+	a, b = reflect.Indirect(a), reflect.Indirect(b)
+	if a.Kind() == reflect.Struct && b.Kind() == reflect.Struct && a.CanInterface() && b.CanInterface() {
+		ta, isTime := a.Interface().(time.Time)
+		if tb, ok := b.Interface().(time.Time); ok && isTime {
+			return !ta.Equal(tb)
+		}
+		return !reflect.DeepEqual(a.Interface(), b.Interface())
+	}
+	return true
+}
+
+// boundField 返回 field 在模型中的值，所在的 embedded 指针为 nil 时返回无效值
+func boundField(model reflect.Value, field *schema.Field) reflect.Value {
+	for i, name := range field.BindNames {
+		if i > 0 {
+			if model = reflect.Indirect(model); !model.IsValid() {
+				return model
+			}
+		}
+		model = model.FieldByName(name)
+	}
+	return model
+}
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 7203f3e..807fd17 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -86,11 +86,15 @@ var opMap = map[ddd.OpType]execFunc{
 	ddd.OpUpdate: func(db *gorm.DB, a *ddd.Action) error {
 		for i, m := range a.Models {
 			if len(a.PrevModels) > i {
-				fields := DiffModel(m, a.PrevModels[i])
-				if len(fields) == 0 {
+				stmt := &gorm.Statement{DB: db}
+				if err := stmt.Parse(m); err != nil {
+					return err
+				}
+				columns := diffColumns(stmt.Schema, m, a.PrevModels[i])
+				if len(columns) == 0 {
 					continue
 				}
-				if err := db.Select(fields).Updates(m).Error; err != nil {
+				if err := db.Select(columns).Updates(m).Error; err != nil {
 					return err
 				}
 			} else {
-- 
2.43.0


From 70a1b0143ff2bd8222c998e570896764c3544445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 37/47] fix: restrict updates by primary key columns whose
 value is zero too

---
 executor/mysql/executor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 807fd17..6888d85 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -94,7 +94,14 @@ var opMap = map[ddd.OpType]execFunc{
 				if len(columns) == 0 {
 					continue
 				}
-				if err := db.Select(columns).Updates(m).Error; err != nil {
+				update := db.Select(columns)
+				for _, field := range stmt.Schema.PrimaryFields {
+					// gorm 会忽略零值的主键字段，复合主键的更新会因此影响其他数据
+					if v, zero := field.ValueOf(context.Background(), reflect.ValueOf(m)); zero {
+						update = update.Where(clause.Eq{Column: clause.Column{Table: clause.CurrentTable, Name: field.DBName}, Value: v})
+					}
+				}
+				if err := update.Updates(m).Error; err != nil {
 					return err
 				}
 			} else {
-- 
2.43.0


From 48a522d0d08007ec32b215f84acf5cdd81b2f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 38/47] fix: notice in-place changes of slices, maps and
 pointers in updates

---
 executor/mysql/diff.go     | 69 ++++++++++++++++++++++++++++++++++++++
 executor/mysql/executor.go |  7 +++-
 2 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index 52a060e..e4aa9db 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -165,3 +165,72 @@ func boundField(model reflect.Value, field *schema.Field) reflect.Value {
 	}
 	return model
 }
+
+// copyModel 返回不与原 model 共享 slice、map、指针的副本，未导出的字段和 interface 的值除外
+func copyModel(po IModel) IModel {
+	v := reflect.ValueOf(po)
+	if !v.IsValid() {
+		return po
+	}
+	return copyValue(v, map[visit]reflect.Value{}).Interface().(IModel)
+}
+
+type visit struct {
+	ptr uintptr
+	typ reflect.Type
+}
+
+func copyValue(v reflect.Value, visited map[visit]reflect.Value) reflect.Value {
+	switch v.Kind() {
+	case reflect.Ptr:
+		if v.IsNil() {
+			return v
+		}
+		key := visit{v.Pointer(), v.Type()}
+		if c, in := visited[key]; in {
+			return c
+		}
+		c := reflect.New(v.Type().Elem())
+		visited[key] = c
+		c.Elem().Set(copyValue(v.Elem(), visited))
+		return c
+	case reflect.Slice:
+		if v.IsNil() {
+			return v
+		}
+		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+		if v.Type().Elem().Kind() <= reflect.Complex128 {
+			reflect.Copy(c, v) // []byte 等基础类型
+			return c
+		}
+		for i := 0; i < v.Len(); i++ {
+			c.Index(i).Set(copyValue(v.Index(i), visited))
+		}
+		return c
+	case reflect.Array:
+		c := reflect.New(v.Type()).Elem()
+		for i := 0; i < v.Len(); i++ {
+			c.Index(i).Set(copyValue(v.Index(i), visited))
+		}
+		return c
+	case reflect.Map:
+		if v.IsNil() {
+			return v
+		}
+		c := reflect.MakeMapWithSize(v.Type(), v.Len())
+		for iter := v.MapRange(); iter.Next(); {
+			c.SetMapIndex(iter.Key(), copyValue(iter.Value(), visited))
+		}
+		return c
+	case reflect.Struct:
+		c := reflect.New(v.Type()).Elem()
+		c.Set(v)
+		for i := 0; i < v.NumField(); i++ {
+			if f := c.Field(i); f.CanSet() {
+				f.Set(copyValue(v.Field(i), visited))
+			}
+		}
+		return c
+	}
+	return v
+}
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 6888d85..e3e68e8 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -211,7 +211,12 @@ func (e *Executor) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.
 	if converter, ok := entity2ModelRegistry[realType(entity)]; !ok {
 		return nil, ddd.ErrEntityNotRegister
 	} else {
-		return converter.entity2Model(entity, parent, op)
+		po, err := converter.entity2Model(entity, parent, op)
+		if err != nil || op != ddd.OpQuery {
+			return po, err
+		}
+		// 查询用的 model 同时是 diff 的旧版本，不能与 entity 共享 slice、map、指针，否则原地修改会被忽略
+		return copyModel(po), nil
 	}
 }
 
-- 
2.43.0


From c6aa68b8311e2a9c1e764cd6c88fa23dfd9b815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:31 +0000
Subject: [PATCH 39/47] fix: release a command's locks even if its context has
 been cancelled

---
 engine.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 926d620..0fd4b45 100644
--- a/engine.go
+++ b/engine.go
@@ -23,6 +23,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"time"
 
 	"github.com/go-logr/logr"
 	"github.com/rs/xid"
@@ -1237,6 +1238,15 @@ func (e *Stage) do(ctx context.Context) *Result {
 
 type doSave func(ctx context.Context) *Result
 
+// detachedCtx 保留 ctx 的值，但不受其取消的影响
+type detachedCtx struct {
+	context.Context
+}
+
+func (detachedCtx) Deadline() (deadline time.Time, ok bool) { return }
+func (detachedCtx) Done() <-chan struct{}                   { return nil }
+func (detachedCtx) Err() error                              { return nil }
+
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 	return func(ctx context.Context) *Result {
 		// 排序不能影响调用方的 slice，并发的命令可能共用一个
@@ -1252,7 +1262,8 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 		ls := make([]interface{}, 0)
 		defer func() {
 			for _, l := range ls {
-				if err := e.locker.UnLock(ctx, l); err != nil {
+				// ctx 可能已经取消，仍然需要释放锁
+				if err := e.locker.UnLock(detachedCtx{ctx}, l); err != nil {
 					e.logger.Error(err, "unlock failed")
 				}
 			}
-- 
2.43.0


From 5ce8d3d5201236d3edf86197fb79643055d590ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 40/47] fix: publish the events of children taken out of a
 deleted entity

---
 engine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 0fd4b45..050abd8 100644
--- a/engine.go
+++ b/engine.go
@@ -930,7 +930,11 @@ func (e *Stage) recycle(changed []*entityChanged) {
 	for _, c := range changed {
 		if c.changeType == deleteChildren {
 			for _, entity := range c.children {
-				e.meta.Recycle(entity)
+				// 子孙实体之后可能从被删除的实体中移走，它们的事件同样需要发送
+				_ = walk(entity, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
+					e.meta.Recycle(entity)
+					return nil
+				})
 			}
 		}
 	}
-- 
2.43.0


From 039175e80e279f4964cf534dccca16501ef7d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:25 +0000
Subject: [PATCH 41/47] fix: a save that failed while taking the snapshot lost
 later changes

---
 engine.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 050abd8..ba5ffb9 100644
--- a/engine.go
+++ b/engine.go
@@ -854,8 +854,14 @@ func childrenSnapshot(children map[string][]IEntity) map[string][]IEntity {
 }
 
 func (e *Stage) flush() error {
+	last := e.snapshot
 	e.snapshot = entitySnapshotPool{}
-	return e.updateSnapshot()
+	if err := e.updateSnapshot(); err != nil {
+		// 不完整的快照会丢失后续的变更
+		e.snapshot = last
+		return err
+	}
+	return nil
 }
 
 // 更新快照，已有的不覆盖
-- 
2.43.0


From dddbab6dd20075097fdd6922df380491e9221e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:25 +0000
Subject: [PATCH 42/47] fix: a root loaded before CustomGet failed on a later
 one was taken for a new one

---
 engine.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index ba5ffb9..0de25a2 100644
--- a/engine.go
+++ b/engine.go
@@ -230,9 +230,12 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		if err := r.stage.meta.Add(root); err != nil {
 			return err
 		}
+		// 后面的聚合根失败时，已添加的不能被当作新建的聚合根
+		if err := r.stage.trackRoots(root); err != nil {
+			return err
+		}
 	}
-
-	return r.stage.trackRoots(roots...)
+	return nil
 }
 
 // Add 添加聚合根到仓库
-- 
2.43.0


From 21da0f025385e4a3a39a59800acce441e548b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:14 +0000
Subject: [PATCH 43/47] fix: a root whose loading failed half-way was taken for
 a new one

---
 engine.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 0de25a2..914c5da 100644
--- a/engine.go
+++ b/engine.go
@@ -115,6 +115,16 @@ func (w *EntityContainer) Remove(root IEntity) error {
 	return nil
 }
 
+// discard 移出容器，不作为删除处理
+func (w *EntityContainer) discard(root IEntity) {
+	for i, item := range w.roots {
+		if item == root {
+			w.roots = append(w.roots[:i:i], w.roots[i+1:]...)
+			return
+		}
+	}
+}
+
 // Recycle 回收所有被删除的实体
 func (w *EntityContainer) Recycle(e IEntity) {
 	w.deleted = append(w.deleted, e)
@@ -881,6 +891,8 @@ func (e *Stage) trackRoots(roots ...IEntity) error {
 	}
 	for _, root := range roots {
 		if err := e.snapshotTree(root, e.meta); err != nil {
+			// 没有快照的聚合根不能留在容器，会被当作新建的聚合根
+			e.meta.discard(root)
 			return err
 		}
 		for key := range e.meta.GetChildren() {
@@ -891,7 +903,8 @@ func (e *Stage) trackRoots(roots ...IEntity) error {
 }
 
 func (e *Stage) snapshotTree(root, rootParent IEntity) error {
-	return walk(root, rootParent, func(entity, parent IEntity, children map[string][]IEntity) error {
+	added := make([]IEntity, 0)
+	err := walk(root, rootParent, func(entity, parent IEntity, children map[string][]IEntity) error {
 		if _, in := e.snapshot[entity]; in {
 			return nil
 		}
@@ -904,8 +917,15 @@ func (e *Stage) snapshotTree(root, rootParent IEntity) error {
 			po:       po,
 			children: childrenSnapshot(children),
 		}
+		added = append(added, entity)
 		return nil
 	})
+	if err != nil {
+		for _, entity := range added {
+			delete(e.snapshot, entity)
+		}
+	}
+	return err
 }
 
 func (e *Stage) hasSnapshot(target IEntity) bool {
-- 
2.43.0


From fd5b5da62411ea7d1d2eaabdf049cbfb0903a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 44/47] fix: event buses created in the same second shared the
 context keys of their message transactions

---
 eventbus/mysql/eventbus.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 7b29f9e..2ae3184 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -151,7 +151,10 @@ type Options struct {
 }
 
 type Option func(opt *Options)
-type contextKey string
+type contextKey struct {
+	bus  *EventBus
+	name string
+}
 
 type EventBus struct {
 	serviceName   string
@@ -162,7 +165,6 @@ type EventBus struct {
 	// 事务结果反查，在事务结果（提交 or 回滚）超时未被调用，会通过反查接口询问结果
 	// 当前仅通过简单的定时来实现，可靠性依赖所在组件的正常运行
 	txChecker dddfirework.DomainEventTXChecker
-	txKey     contextKey
 
 	cb        dddfirework.DomainEventHandler
 	cleanCron *cron.Cron
@@ -214,7 +216,6 @@ func NewEventBus(serviceName string, db *gorm.DB, options ...Option) *EventBus {
 		logger:        opt.Logger,
 		retryStrategy: strategy,
 		opt:           opt,
-		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%d", time.Now().Unix())),
 		cleanCron:     cron.New(),
 	}
 	_ = eb.initService()
@@ -229,12 +230,12 @@ func (e *EventBus) Options() []dddfirework.Option {
 }
 
 func (e *EventBus) ctxWithDB(ctx context.Context, db *gorm.DB) context.Context {
-	return context.WithValue(ctx, e.txKey+":db", db)
+	return context.WithValue(ctx, contextKey{e, "db"}, db)
 }
 
 // getDB 获取上下文中的 db 句柄，有事务场景下调用的，必须用该方法获取 DB
 func (e *EventBus) getDB(ctx context.Context) *gorm.DB {
-	val := ctx.Value(e.txKey + ":db")
+	val := ctx.Value(contextKey{e, "db"})
 	if val != nil {
 		return val.(*gorm.DB)
 	}
@@ -243,11 +244,11 @@ func (e *EventBus) getDB(ctx context.Context) *gorm.DB {
 }
 
 func (e *EventBus) ctxWithTX(ctx context.Context, tx *Transaction) context.Context {
-	return context.WithValue(ctx, e.txKey+":tx", tx)
+	return context.WithValue(ctx, contextKey{e, "tx"}, tx)
 }
 
 func (e *EventBus) getTX(ctx context.Context) *Transaction {
-	val := ctx.Value(e.txKey + ":tx")
+	val := ctx.Value(contextKey{e, "tx"})
 	if val != nil {
 		return val.(*Transaction)
 	}
-- 
2.43.0


From ea81c44f0ff80e4bd3b8fd4ec31fe3b76a3a88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 45/47] fix: an event published with the context of a message
 transaction was taken for the message

---
 eventbus/mysql/eventbus.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 2ae3184..80b689d 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -258,7 +258,12 @@ func (e *EventBus) getTX(ctx context.Context) *Transaction {
 
 // Dispatch ...
 func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEvent) error {
-	tx := e.getTX(ctx)
+	// ctx 中的消息事务由 Commit 发布，与直接发布的事件无关
+	return e.publish(ctx, 0, events)
+}
+
+// publish 发布事件，transID 非 0 表示事件来自消息事务
+func (e *EventBus) publish(ctx context.Context, transID int64, events []*dddfirework.DomainEvent) error {
 	pos := make([]*EventPO, len(events))
 
 	for i, evt := range events {
@@ -266,9 +271,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 		if err != nil {
 			return err
 		}
-		if tx != nil {
-			po.TransID = tx.ID
-		}
+		po.TransID = transID
 		pos[i] = po
 	}
 	// return e.getDB(ctx).Create(pos).Error
@@ -346,7 +349,7 @@ func (e *EventBus) Commit(ctx context.Context) error {
 		}
 		err = db.Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
 		if errors.Is(err, gorm.ErrRecordNotFound) {
-			err = e.Dispatch(e.ctxWithDB(ctx, db), tx.Events...)
+			err = e.publish(e.ctxWithDB(ctx, db), tx.ID, tx.Events)
 		}
 		if err != nil {
 			return err
-- 
2.43.0


From c0b088f35fff7b3b5e1cb8e3b8a0d77f55d1dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 46/47] fix: a service whose registration failed at start was
 never registered

---
 eventbus/mysql/eventbus.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 80b689d..22ba7e9 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -169,6 +169,7 @@ type EventBus struct {
 	cb        dddfirework.DomainEventHandler
 	cleanCron *cron.Cron
 	once      sync.Once
+	created   int32        // 服务是否已注册
 	mu        sync.RWMutex // 保护 cb 和 txChecker，每个命令执行时都会重新注册
 }
 
@@ -387,7 +388,11 @@ func (e *EventBus) handler() dddfirework.DomainEventHandler {
 
 func (e *EventBus) initService() error {
 	service := &ServicePO{}
-	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
+	if err := e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error; err != nil {
+		return err
+	}
+	atomic.StoreInt32(&e.created, 1)
+	return nil
 }
 
 func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
@@ -665,6 +670,10 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 }
 
 func (e *EventBus) handleEvents() error {
+	// 启动时注册失败的服务收不到任何事件，需要重新注册
+	if atomic.LoadInt32(&e.created) == 0 {
+		return ErrServiceNotCreate
+	}
 	e.logger.Info("handle events start")
 	defer func() {
 		if r := recover(); r != nil {
-- 
2.43.0


From 02bfd738dd384695679c4922b47caadb9236d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 47/47] fix: cleaning events waited for ever for a second
 connection of an exhausted pool

---
 eventbus/mysql/eventbus.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 22ba7e9..1fc12b7 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -801,7 +801,6 @@ func (e *EventBus) cleanEvents() error {
 		}
 		return nil
 	}
-	batch := 10
 	eventIDs := make([]int64, 0)
 	for rows.Next() {
 		serviceEvent := &ServiceEventPO{}
@@ -810,18 +809,20 @@ func (e *EventBus) cleanEvents() error {
 			return err
 		}
 		eventIDs = append(eventIDs, serviceEvent.EventID)
-		if len(eventIDs) >= batch {
-			if err = deleteServiceEvents(eventIDs); err != nil {
-				return err
-			}
-			// 清空eventIDs
-			eventIDs = eventIDs[:0]
-		}
 	}
-	if len(eventIDs) > 0 {
-		if err = deleteServiceEvents(eventIDs); err != nil {
+	// 先归还查询占用的连接再删除，否则连接池用尽时会一直等待
+	if err = rows.Close(); err != nil {
+		return err
+	}
+	batch := 10
+	for len(eventIDs) > 0 {
+		if batch > len(eventIDs) {
+			batch = len(eventIDs)
+		}
+		if err = deleteServiceEvents(eventIDs[:batch]); err != nil {
 			return err
 		}
+		eventIDs = eventIDs[batch:]
 	}
 	return nil
 }
-- 
2.43.0

