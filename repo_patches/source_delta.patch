From 666ff849ea23afa0f27882a1535a8b167b055444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 01/26] fix: cache Partial interpolations by the shape of each
 nested partial

---
 src/velement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/velement.ts b/src/velement.ts
index dae71c6..a77ada1 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -53,7 +53,7 @@ export class Partial {
       const value = values[i]!;
       if (value instanceof Partial) {
         literalStrings.push(...value.strings);
-        literalPositions.push(i);
+        literalPositions.push(i, value.strings.length);
         flattenedValues.push(...value.values);
       } else {
         flattenedValues.push(value);
-- 
2.43.0


From 1bf178f87182fd9b71cb44be357174171e8ed8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 02/26] fix: drop the captures of router routes that are not
 descended into

---
 src/addons/router/router.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/router/router.ts b/src/addons/router/router.ts
index 88c336b..0621d0c 100644
--- a/src/addons/router/router.ts
+++ b/src/addons/router/router.ts
@@ -57,11 +57,12 @@ export class Router<TResult> {
       );
 
       if (captures !== null) {
-        collectedCaptures.push(...captures);
         if (components.length === componentIndex + patterns.length) {
+          collectedCaptures.push(...captures);
           return resolver?.(collectedCaptures, url);
         }
         if (childRoutes.length > 0) {
+          collectedCaptures.push(...captures);
           routes = childRoutes;
           routeIndex = 0;
           componentIndex += patterns.length;
-- 
2.43.0


From e54b97cc7b3bba9e785de196977e98a7667f01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 03/26] fix: reject NaN in the integer matcher

---
 src/addons/router/matchers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/router/matchers.ts b/src/addons/router/matchers.ts
index 11b6438..cd09207 100644
--- a/src/addons/router/matchers.ts
+++ b/src/addons/router/matchers.ts
@@ -27,7 +27,7 @@ export function encoded(component: string): string {
 
 export function integer(component: string): number | undefined {
   const n = Number.parseInt(component, 10);
-  return n.toString() === component ? n : undefined;
+  return !Number.isNaN(n) && n.toString() === component ? n : undefined;
 }
 
 export function keyword<const T extends string>(s: T): Matcher<T> {
-- 
2.43.0


From c516e0e3777158baa6a80df0eff73ac2b55b7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 04/26] fix: keep the content rendered after an unmount in the
 same batch

---
 src/dom/root.ts | 59 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/dom/root.ts b/src/dom/root.ts
index 177f47c..e47b32c 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -11,14 +11,15 @@ import { AllLanes } from '../lane.js';
 import { wrap } from '../velement.js';
 import { ContainerPart } from './part.js';
 
+interface RootSession extends RenderRoot {
+  // The session to be unmounted before this session is committed.
+  previous: RootSession | null;
+}
+
 export class DOMRoot {
   private readonly _container: Container;
   private readonly _dispatcher: Dispatcher;
-  private readonly _root: RenderRoot = {
-    type: null,
-    left: null,
-    right: null,
-  };
+  private _session: RootSession = createSession(null);
 
   constructor(container: Container, dispatcher: Dispatcher) {
     this._container = container;
@@ -32,24 +33,27 @@ export class DOMRoot {
         scope,
         pendingLanes: AllLanes,
         prepare: (_lanes, renderer) => {
+          const session = this._session;
           const element = wrap(value);
-          this._root.left =
-            this._root.right !== null
-              ? renderer.diff(this._root.right, element, scope, 0, this._root)
+          session.left =
+            session.right !== null
+              ? renderer.diff(session.right, element, scope, 0, session)
               : renderer.render(
                   element,
                   scope,
                   0,
-                  this._root,
+                  session,
                   new ContainerPart(this._container),
                 );
           return () => {
-            if (this._root.right !== null) {
-              patch(this._root.right, this._root.left!);
+            unmountSession(session.previous);
+            session.previous = null;
+            if (session.right !== null) {
+              patch(session.right, session.left!);
             } else {
-              mount(this._root.left!);
+              mount(session.left!);
             }
-            this._root.right = this._root.left;
+            session.right = session.left;
           };
         },
       },
@@ -64,11 +68,11 @@ export class DOMRoot {
         scope,
         pendingLanes: AllLanes,
         prepare: () => {
+          // The following renders must not reuse the nodes to be unmounted.
+          const session = this._session;
+          this._session = createSession(session);
           return () => {
-            if (this._root.right !== null) {
-              unmount(this._root.right);
-              this._root.right = null;
-            }
+            unmountSession(session);
           };
         },
       },
@@ -76,3 +80,24 @@ export class DOMRoot {
     );
   }
 }
+
+function createSession(previous: RootSession | null): RootSession {
+  return {
+    type: null,
+    left: null,
+    right: null,
+    previous,
+  };
+}
+
+function unmountSession(session: RootSession | null): void {
+  while (session !== null) {
+    const { previous, right } = session;
+    if (right !== null) {
+      unmount(right);
+      session.right = null;
+    }
+    session.previous = null;
+    session = previous;
+  }
+}
-- 
2.43.0


From 305d402bbe3be42127d4d22aa640bf421648f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 05/26] fix: compare keys in commits in the same way as in
 diffs

---
 src/commit.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index 125c7e2..669b98f 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -4,6 +4,7 @@ import {
   type RenderNode,
   type RenderRoot,
 } from './base.js';
+import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
   mountChild(node, null);
@@ -41,7 +42,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
+  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
-- 
2.43.0


From 855997781de3a30f6ceff4d911b05b4c4ea71921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 06/26] fix: reparent reused nodes that have their own pending
 changes

---
 src/commit.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 669b98f..597df6a 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -38,9 +38,11 @@ function applyPatch(
   index: number,
   parent: RenderNode | RenderRoot | null,
 ): void {
-  if (oldNode === newNode && isCommitted(oldNode)) {
+  if (oldNode === newNode) {
     reparentChild(oldNode, index, parent);
-    return;
+    if (isCommitted(oldNode)) {
+      return;
+    }
   }
   if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
-- 
2.43.0


From 53be43758d413eb3aa45d625e69dcc400183523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 07/26] fix: place children relative to the nodes that are
 currently in the DOM

---
 src/commit.ts | 59 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 597df6a..1e46484 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -1,5 +1,6 @@
 import {
   Bind,
+  Fragment,
   MutationType,
   type RenderNode,
   type RenderRoot,
@@ -60,18 +61,22 @@ function applyPatch(
     }
   } else if (typeof newNode.type === 'function') {
     applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
+    newNode.right = newNode.left.slice();
   } else {
+    // While the mutations are applied, `right` holds the children in the order
+    // in which they are currently placed.
+    const children = newNode.right.slice();
+    newNode.right = children;
     for (const mutation of newNode.state.mutations.splice(0)) {
       switch (mutation.type) {
         case MutationType.INSERT:
           mountChild(
             mutation.node,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
+            placeChild(mutation.node, mutation.afterNode, newNode),
           );
           break;
         case MutationType.UPDATE:
+          children[children.indexOf(mutation.oldNode)] = mutation.newNode;
           applyPatch(
             mutation.oldNode,
             mutation.newNode,
@@ -80,20 +85,21 @@ function applyPatch(
           );
           break;
         case MutationType.UPDATE_AND_MOVE:
+          children[children.indexOf(mutation.oldNode)] = mutation.newNode;
           applyPatch(
             mutation.oldNode,
             mutation.newNode,
             mutation.index,
             newNode,
           );
+          children.splice(children.indexOf(mutation.newNode), 1);
           moveChild(
             mutation.newNode,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
+            placeChild(mutation.newNode, mutation.afterNode, newNode),
           );
           break;
         case MutationType.REMOVE:
+          children.splice(children.indexOf(mutation.node), 1);
           unmountChild(mutation.node);
           break;
       }
@@ -105,31 +111,38 @@ function getChildDOMNode(node: RenderNode): ChildNode | null {
   if (typeof node.type === 'object') {
     return node.state.block.staticNodes[0]!;
   }
-  for (const child of node.left) {
+  // `right` is empty while the node has been mounted but not committed yet.
+  for (const child of node.right.length > 0 ? node.right : node.left) {
     const domNode = getChildDOMNode(child);
     if (domNode !== null) {
       return domNode;
     }
   }
-  return getSiblingDOMNode(node);
+  return null;
 }
 
 function getSiblingDOMNode(node: RenderNode): ChildNode | null {
   const part = node.part;
   // Only called on non-detached nodes, so parent is never null.
   while (node.parent!.type != null) {
-    const children = isCommitted(node) ? node.parent!.right : node.parent!.left;
-    for (let i = node.index + 1, l = children.length; i < l; i++) {
-      const child = children[i]!;
-      if (child.part !== part) {
-        break;
-      }
-      const domNode = getChildDOMNode(child);
-      if (domNode !== null) {
-        return domNode;
+    // Only the children of a fragment have siblings in the same part.
+    if (node.parent!.type === Fragment) {
+      const children = node.parent!.right;
+      for (let i = children.indexOf(node) + 1; i < children.length; i++) {
+        const child = children[i]!;
+        if (child.part !== part) {
+          break;
+        }
+        const domNode = getChildDOMNode(child);
+        if (domNode !== null) {
+          return domNode;
+        }
       }
     }
     node = node.parent!;
+    if (node.part !== part) {
+      break;
+    }
   }
   return null;
 }
@@ -163,6 +176,18 @@ function moveChild(child: RenderNode, afterNode: ChildNode | null): void {
   }
 }
 
+function placeChild(
+  child: RenderNode,
+  afterNode: RenderNode | undefined,
+  parent: RenderNode,
+): ChildNode | null {
+  const children = parent.right;
+  const index =
+    afterNode !== undefined ? children.indexOf(afterNode) : children.length;
+  children.splice(index, 0, child);
+  return getSiblingDOMNode(child);
+}
+
 function reparentChild(
   child: RenderNode,
   index: number,
-- 
2.43.0


From deddf0b4599b38acfd40438d71e4d859dec0448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 08/26] fix: process updates of the same priority in the order
 of scheduling

---
 src/runtime.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 7c6a91e..dcf2e75 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -611,7 +611,10 @@ function compareUpdates(update1: Update, update2: Update): number {
   }
   const level1 = update1.transaction.scope.level;
   const level2 = update2.transaction.scope.level;
-  return level1 - level2;
+  if (level1 !== level2) {
+    return level1 - level2;
+  }
+  return update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From d1321bdd545fec6d1b8ded93c88b37fdffe593df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 09/26] fix: render parents before their children within a
 batch

---
 src/runtime.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index dcf2e75..890cdf7 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -538,7 +538,9 @@ export class Runtime implements Renderer, Dispatcher {
       try {
         const commitBatch: Commit[] = [];
 
-        for (const update of this._updateBatch) {
+        // Parents are rendered before their children, so that the children
+        // rendered along with them are not rendered again.
+        for (const update of this._updateBatch.toSorted(compareLevels)) {
           const { lanes, transaction } = update;
           if (transaction.pendingLanes & lanes) {
             commitBatch.push(
@@ -603,18 +605,17 @@ function buildKeyToIndexMap<T>(
   return keyToIndexMap;
 }
 
+function compareLevels(update1: Update, update2: Update): number {
+  return update1.transaction.scope.level - update2.transaction.scope.level;
+}
+
 function compareUpdates(update1: Update, update2: Update): number {
   const highestLane1 = getHighestPriorityLane(update1.lanes);
   const highestLane2 = getHighestPriorityLane(update2.lanes);
   if (highestLane1 !== highestLane2) {
     return highestLane1 - highestLane2;
   }
-  const level1 = update1.transaction.scope.level;
-  const level2 = update2.transaction.scope.level;
-  if (level1 !== level2) {
-    return level1 - level2;
-  }
-  return update1.id - update2.id;
+  return compareLevels(update1, update2) || update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From 955ad83f41d5263868e3d78f74659a2f7ca0798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 10/26] fix: flush staged updates behind updates that are not
 staged yet

---
 src/runtime.ts | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 890cdf7..9d0d3fe 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -512,25 +512,38 @@ export class Runtime implements Renderer, Dispatcher {
 
   private async _flush(): Promise<void> {
     while (true) {
+      const deferredUpdates: Update[] = [];
+
       // Only updates of equal priority are batched. The queue is lane-ordered,
       // so a UserHandlerLane update is followed only by equal/lower-priority
       // updates; stopping there commits it as its own batch.
       do {
         const update = this._updateQueue.peek();
+        if (update === undefined) {
+          break;
+        }
         if (
-          update === undefined ||
-          ((update.lanes & this._stagedLanes) !== update.lanes &&
-            getHighestPriorityLane(this._flushLanes) <
-              getHighestPriorityLane(update.lanes))
+          (update.lanes & this._stagedLanes) === NoLanes &&
+          getHighestPriorityLane(this._flushLanes) <
+            getHighestPriorityLane(update.lanes)
         ) {
           // The update is not staged yet and lower-priority than the batch;
           // defer it so it commits as its own batch.
-          break;
+          if (this._flushLanes !== NoLanes) {
+            break;
+          }
+          // It must not block the staged updates behind it.
+          deferredUpdates.push(this._updateQueue.dequeue()!);
+          continue;
         }
         this._flushLanes |= update.lanes;
         this._updateBatch.push(this._updateQueue.dequeue()!);
       } while (!(this._flushLanes & UserHandlerLane));
 
+      for (const update of deferredUpdates) {
+        this._updateQueue.enqueue(update);
+      }
+
       if (this._flushLanes === NoLanes) {
         break;
       }
-- 
2.43.0


From 12214254c1da778f98b781279ab3b8dfca35d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 11/26] fix: apply pending actions to the rebased state

---
 src/component.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 1153477..e818146 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -74,6 +74,7 @@ interface ActionDispatcher<TState, TAction> {
   reducer: (state: TState, payload: TAction) => TState;
   currentState: TState;
   pendingActions: Action<TState, TAction>[];
+  skipLanes: Lanes;
 }
 
 type EffectCleanup = () => void;
@@ -348,6 +349,7 @@ export class RenderContext {
       let skipLanes = NoLanes;
 
       memoizedActions.push(...dispatcher.pendingActions);
+      dispatcher.pendingActions = [];
 
       for (const action of memoizedActions) {
         const { payload, lanes, revertLanes } = action;
@@ -367,14 +369,16 @@ export class RenderContext {
 
       dispatcher.reducer = reducer;
       dispatcher.currentState = nextState;
-      dispatcher.pendingActions = [];
+      dispatcher.skipLanes = skipLanes;
     } else {
       const dispatcher: ActionDispatcher<TState, TAction> = {
         dispatch: (payload, options = {}) => {
           const { pendingActions, currentState, reducer } = dispatcher;
           let eagerState: TState | undefined;
 
-          if (pendingActions.length === 0) {
+          // The state cannot be computed eagerly while preceding actions are
+          // pending or skipped.
+          if (pendingActions.length === 0 && dispatcher.skipLanes === NoLanes) {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = reducer(currentState, payload);
 
@@ -399,6 +403,7 @@ export class RenderContext {
         reducer,
         currentState: getInitialState(initialState),
         pendingActions: [],
+        skipLanes: NoLanes,
       };
       currentHook = {
         type: HookType.REDUCER,
-- 
2.43.0


From cb4de8b1e7e3269007b40296e4761b03c262145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 12/26] fix: render components again until their changes are
 committed

---
 src/component.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index e818146..434f4d0 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -131,6 +131,10 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   readonly _dispatcher: Dispatcher;
   /** @internal */
   _pendingLanes: Lanes = NoLanes;
+  // Lanes that have been rendered but not committed yet. The committed node
+  // must not be reused for them.
+  /** @internal */
+  _workingLanes: Lanes = NoLanes;
   /** @internal */
   _context: RenderContext | null = null;
   /** @internal */
@@ -145,10 +149,11 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   }
 
   get pendingLanes(): Lanes {
-    return this._pendingLanes;
+    return this._pendingLanes | this._workingLanes;
   }
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
+    this._workingLanes |= this._pendingLanes & lanes;
     this._pendingLanes &= ~lanes;
     if (this._context !== null) {
       this._context._scope = scope;
@@ -182,6 +187,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
       }
     }
     this._connectedNode = node;
+    this._workingLanes = NoLanes;
   }
 
   disconnect(): void {
-- 
2.43.0


From 09ed42861ad5053df0b4218c66a39a5c128561ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 13/26] fix: do not expose the missing properties read from
 drafts

---
 src/addons/signal/derivable.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8c288c3..61e1a7d 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -366,7 +366,8 @@ function resolveProperty<T>(
       FLAG_CONFIGURABLE_PROPERTY |
         FLAG_ENUMERABLE_PROPERTY |
         FLAG_WRITABLE_PROPERTY |
-        FLAG_DYNAMIC_PROPERTY,
+        FLAG_DYNAMIC_PROPERTY |
+        FLAG_DELETED_PROPERTY,
     );
   }
 
-- 
2.43.0


From 60cd73d864dbb7b301035d67157301dbd25e2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 14/26] fix: expose the properties restored after being deleted
 from drafts

---
 src/addons/signal/derivable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 61e1a7d..b44bde1 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -178,7 +178,7 @@ function deleteProperty<T>(prop: Derivable<T>): void {
     owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  prop._flags |= FLAG_DELETED_PROPERTY;
+  prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
 }
 
 function draftTarget<T>(
-- 
2.43.0


From fd96483c76549f3e4509c83fc614bf432e22ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 15/26] fix: keep the drafts of a value apart from the value
 assigned over it

---
 src/addons/signal/derivable.ts | 73 ++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index b44bde1..636cb89 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -1,3 +1,4 @@
+import { is } from '../../compare.js';
 import {
   Accessor,
   Atom,
@@ -30,6 +31,12 @@ type NonPrimitive<T> = Exclude<T, Primitive>;
 
 type NormalizedKey = string | symbol;
 
+// Drafts refer to their receivers through handles, so that they can be
+// redirected when the receivers are assigned other values.
+interface DraftHandle<T> {
+  receiver: Derivable<T>;
+}
+
 type Primitive = bigint | string | number | symbol | null | undefined;
 
 export class Derivable<T> extends Signal<T> {
@@ -43,6 +50,8 @@ export class Derivable<T> extends Signal<T> {
   _flags: number;
   /** @internal */
   _properties: Map<NormalizedKey, Derivable<unknown>> | null = null;
+  /** @internal */
+  _handle: DraftHandle<T> = { receiver: this };
 
   static from<T>(value: T): Derivable<T> {
     return new Derivable(new Atom(value), null, null, NO_FLAGS);
@@ -95,7 +104,7 @@ export class Derivable<T> extends Signal<T> {
   scope<TReturn>(callback: (draft: T) => TReturn): TReturn {
     const target = this._source.value;
     if (isNonPrimitive(target)) {
-      const { proxy, revoke } = draftTarget(this, target);
+      const { proxy, revoke } = draftTarget(this._handle, target);
       try {
         return callback(proxy);
       } finally {
@@ -181,14 +190,35 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
 }
 
+// Moves the drafts of the old value to another receiver, since they must not
+// refer to the value assigned afterwards.
+function detachDrafts<T>(receiver: Derivable<T>, oldValue: T): void {
+  const detached: Derivable<any> = new Derivable(
+    new Atom(oldValue),
+    null,
+    null,
+    receiver._flags & FLAG_NEEDS_COMMIT,
+  );
+  if (receiver._properties !== null) {
+    for (const prop of receiver._properties.values()) {
+      prop._owner = detached;
+    }
+    detached._properties = receiver._properties;
+    receiver._properties = null;
+  }
+  detached._handle = receiver._handle;
+  detached._handle.receiver = detached;
+  receiver._handle = { receiver };
+}
+
 function draftTarget<T>(
-  receiver: Derivable<T>,
+  handle: DraftHandle<T>,
   target: T & object,
   trackProperty: typeof getProperty = getProperty,
 ): { proxy: T; revoke: () => void } {
   const { proxy, revoke } = Proxy.revocable(target, {
     deleteProperty(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(handle.receiver, target, key);
       const success = !!(prop._flags & FLAG_CONFIGURABLE_PROPERTY);
       if (success) {
         deleteProperty(prop);
@@ -197,16 +227,16 @@ function draftTarget<T>(
     },
     get(target, key, _proxyReceiver) {
       if (key === UNWRAP_TAG) {
-        return commitValue(receiver);
+        return commitValue(handle.receiver);
       }
-      const prop = trackProperty(receiver, target, key);
+      const prop = trackProperty(handle.receiver, target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
       if (prop._flags & FLAG_ENUMERABLE_PROPERTY) {
         const target = prop._source.value;
         if (isNonPrimitive(target)) {
-          const { proxy, revoke } = draftTarget(prop, target);
+          const { proxy, revoke } = draftTarget(prop._handle, target);
           revokeBatch.push(revoke);
           return proxy;
         }
@@ -214,7 +244,7 @@ function draftTarget<T>(
       return commitValue(prop);
     },
     getOwnPropertyDescriptor(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(handle.receiver, target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -229,7 +259,7 @@ function draftTarget<T>(
       return Reflect.getOwnPropertyDescriptor(target, key);
     },
     set(target, key, value, _proxyReceiver) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(handle.receiver, target, key);
       const success = !!(prop._flags & FLAG_WRITABLE_PROPERTY);
       if (success) {
         setPendingValue(prop, finalizeValue(value));
@@ -240,17 +270,17 @@ function draftTarget<T>(
       if (key === UNWRAP_TAG) {
         return true;
       }
-      const prop = receiver._properties?.get(key);
+      const prop = handle.receiver._properties?.get(key);
       return prop !== undefined
         ? !(prop._flags & FLAG_DELETED_PROPERTY)
         : Reflect.has(target, key);
     },
     ownKeys(target) {
       const baseKeys = Reflect.ownKeys(target);
-      if (receiver._properties !== null) {
+      if (handle.receiver._properties !== null) {
         const deletedKeys: NormalizedKey[] = [];
         const dynamicKeys: NormalizedKey[] = [];
-        for (const [key, prop] of receiver._properties.entries()) {
+        for (const [key, prop] of handle.receiver._properties.entries()) {
           if (prop._flags & FLAG_DELETED_PROPERTY) {
             deletedKeys.push(key);
           } else if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
@@ -372,13 +402,14 @@ function resolveProperty<T>(
   }
 
   const { get, set, value } = descriptor;
+  const handle = receiver._handle;
   const flags = getPropertyFlags(descriptor);
 
   if (get !== undefined && set !== undefined) {
     return new Derivable(
       new Accessor(
         () => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftTarget(handle, target);
           try {
             return finalizeValue(get.call(proxy));
           } finally {
@@ -386,7 +417,7 @@ function resolveProperty<T>(
           }
         },
         (newValue) => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftTarget(handle, target);
           try {
             set.call(proxy, finalizeValue(newValue));
           } finally {
@@ -403,7 +434,7 @@ function resolveProperty<T>(
   if (get !== undefined) {
     const dependencies: Signal<any>[] = [];
     const { proxy, revoke } = draftTarget(
-      receiver,
+      handle,
       target,
       (receiver, target, key) => {
         const prop = getProperty(receiver, target, key);
@@ -420,7 +451,7 @@ function resolveProperty<T>(
       return new Derivable(
         new Computed(
           () => {
-            const { proxy, revoke } = draftTarget(receiver, target);
+            const { proxy, revoke } = draftTarget(handle, target);
             try {
               return finalizeValue(get.call(proxy));
             } finally {
@@ -447,6 +478,12 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   const oldValue = receiver._source.value;
   // Intentionally throws a TypeError if signal is a Computed (which has no setter).
   (receiver._source as WritableSignal<T>).value = newValue;
+  if (
+    isNonPrimitive(oldValue) &&
+    (receiver._flags & FLAG_NEEDS_COMMIT || !is(oldValue, newValue))
+  ) {
+    detachDrafts(receiver, oldValue);
+  }
   for (
     let owner = receiver._owner, reversePath = [receiver._key!];
     owner !== null;
@@ -467,12 +504,6 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
     owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
-      prop._owner = null;
-    }
-    receiver._properties.clear();
-  }
   receiver._flags |= FLAG_PENDING_VALUE;
   receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
-- 
2.43.0


From 99c2d2b748e93a045e696a579972c756816831e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 16/26] fix: do not let updates overtake deferred updates of
 the same priority

---
 src/runtime.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 9d0d3fe..402263f 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -524,11 +524,13 @@ export class Runtime implements Renderer, Dispatcher {
         }
         if (
           (update.lanes & this._stagedLanes) === NoLanes &&
-          getHighestPriorityLane(this._flushLanes) <
-            getHighestPriorityLane(update.lanes)
+          (deferredUpdates.length > 0 ||
+            getHighestPriorityLane(this._flushLanes) <
+              getHighestPriorityLane(update.lanes))
         ) {
-          // The update is not staged yet and lower-priority than the batch;
-          // defer it so it commits as its own batch.
+          // The update is not staged yet and lower-priority than the batch, or
+          // must not overtake the deferred updates; defer it so it commits as
+          // its own batch.
           if (this._flushLanes !== NoLanes) {
             break;
           }
-- 
2.43.0


From 98969146b09b554f1b5e02fda3f8714c37f0fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 17/26] fix: keep the updates of skipped actions pending

---
 src/component.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/component.ts b/src/component.ts
index 434f4d0..f01a172 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -364,6 +364,8 @@ export class RenderContext {
           action.lanes = revertLanes;
         } else if ((revertLanes & renderLanes) === revertLanes) {
           action.revertLanes = NoLanes;
+          // Rendering the lanes of the action one by one does not apply it.
+          this._instance._pendingLanes |= lanes & ~renderLanes;
         }
         skipLanes |= (lanes & ~renderLanes) | (revertLanes & renderLanes);
       }
-- 
2.43.0


From 253dfe1f03f32308f14b27dece4a359ce0f73800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 18/26] fix: accept camel-case SVG attributes in templates

---
 src/dom/template.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index 9d37626..b12a8f8 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -213,7 +213,7 @@ function collectAttributeHoles(
       const caseSensitiveName = extractAttributeName(strings[holes.length]!);
 
       DEBUG: {
-        if (caseSensitiveName?.toLowerCase() !== name) {
+        if (caseSensitiveName?.toLowerCase() !== name.toLowerCase()) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             `The attribute name must be "${name}", but got "${caseSensitiveName}". There are unclosed tags or duplicate attributes.`,
-- 
2.43.0


From 5443931c40d2df6003cb90eac99523605e92edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 19/26] fix: clear the values of attributes that become true

---
 src/dom/part.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index dd78029..43dc740 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -58,7 +58,12 @@ export class AttributePart extends DOMPart {
     if (value == null) {
       this._node.removeAttribute(this._name);
     } else if (typeof value === 'boolean') {
-      this._node.toggleAttribute(this._name, value);
+      if (value) {
+        // Replaces the value of the attribute if it is already present.
+        this._node.setAttribute(this._name, '');
+      } else {
+        this._node.removeAttribute(this._name);
+      }
     } else {
       this._node.setAttribute(this._name, toStringOrEmpty(value));
     }
-- 
2.43.0


From f298e120c2a0adec4057f07c8a5183296275ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 20/26] fix: keep the case of custom properties in styles

---
 src/dom/part.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 43dc740..a41cb5d 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -350,9 +350,12 @@ function normalizeStyle(value: unknown): StyleMap {
  * toCSSProperty('padding-block'); // => 'padding-block'
  */
 function toCSSPropertyName(key: string): string {
-  return key
-    .replace(CSS_VENDOR_PREFIX_PATTERN, '-$1')
-    .replace(CSS_UPPERCASE_LETTER_PATTERN, (c) => '-' + c.toLowerCase());
+  // Custom property names are case-sensitive.
+  return key.startsWith('--')
+    ? key
+    : key
+        .replace(CSS_VENDOR_PREFIX_PATTERN, '-$1')
+        .replace(CSS_UPPERCASE_LETTER_PATTERN, (c) => '-' + c.toLowerCase());
 }
 
 function toStringOrEmpty(value: unknown): string {
-- 
2.43.0


From 21b0fab25c604c6f843fb317f3ab025e47634647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 21/26] fix: do not notify subscribers removed during a
 notification

---
 src/addons/signal/linked-list.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/linked-list.ts b/src/addons/signal/linked-list.ts
index a93a955..82f7d22 100644
--- a/src/addons/signal/linked-list.ts
+++ b/src/addons/signal/linked-list.ts
@@ -20,7 +20,10 @@ export class LinkedList<T> implements Iterable<T> {
 
   *[Symbol.iterator](): Generator<T> {
     for (let node = this._head; node !== null; node = node.next) {
-      yield node.value;
+      // Nodes may be deleted together with their successors while iterating.
+      if (node.owner === this) {
+        yield node.value;
+      }
     }
   }
 
-- 
2.43.0


From 3b5a25afe3ab2f89fbbfebb108c59a7d388dd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 22/26] fix: clear the property signals of deleted properties

---
 src/addons/signal/derivable.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 636cb89..d7991fd 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -169,6 +169,14 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
+  if (prop._owner !== null && prop._source instanceof Atom) {
+    const oldValue = prop._source.value;
+    prop._source.value = undefined;
+    if (isNonPrimitive(oldValue)) {
+      detachDrafts(prop as Derivable<any>, oldValue);
+    }
+    prop._flags &= ~FLAG_NEEDS_COMMIT;
+  }
   for (
     let owner = prop._owner, reversePath = [prop._key!];
     owner !== null;
-- 
2.43.0


From 732929e3fbe16c339c04e915cb0f15e7086179a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 23/26] fix: keep the lengths of array drafts consistent with
 their elements

---
 src/addons/signal/derivable.ts | 40 ++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index d7991fd..251bd5e 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -514,6 +514,17 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   }
   receiver._flags |= FLAG_PENDING_VALUE;
   receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
+  if (receiver._owner !== null) {
+    const target = receiver._owner._source.value;
+    if (Array.isArray(target)) {
+      syncArrayLength(
+        receiver as Derivable<any>,
+        receiver._owner,
+        target,
+        oldValue,
+      );
+    }
+  }
 }
 
 function shallowClone<T>(target: T): T {
@@ -524,3 +535,32 @@ function shallowClone<T>(target: T): T {
         Object.getOwnPropertyDescriptors(target),
       );
 }
+
+// Keeps the length and the elements of an array consistent with each other, as
+// assigning either of them does in arrays.
+function syncArrayLength(
+  prop: Derivable<unknown>,
+  owner: Derivable<unknown>,
+  target: unknown[],
+  oldValue: unknown,
+): void {
+  const value = prop._source.value;
+  if (prop._key === 'length') {
+    for (let i = value as number; i < (oldValue as number); i++) {
+      const element = getProperty(owner, target, i.toString());
+      if (!(element._flags & FLAG_DELETED_PROPERTY)) {
+        deleteProperty(element);
+      }
+    }
+  } else {
+    const length = getProperty(owner, target, 'length');
+    const index = Number(prop._key);
+    if (
+      Number.isInteger(index) &&
+      index.toString() === prop._key &&
+      index >= (length._source.value as number)
+    ) {
+      setPendingValue(length, index + 1);
+    }
+  }
+}
-- 
2.43.0


From 6a52d5589016cc4d3b3b2ff28ff04deb433858f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:42 +0000
Subject: [PATCH 24/26] fix: class maps with undefined values enabled or
 toggled their tokens

---
 src/dom/part.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index a41cb5d..259c289 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -9,7 +9,7 @@ const CSS_UPPERCASE_LETTER_PATTERN = /[A-Z]/g;
 const CSS_VENDOR_PREFIX_PATTERN = /^(webkit|moz|ms|o)(?=[A-Z])/;
 
 interface ClassMap {
-  [key: string]: boolean;
+  [key: string]: boolean | null | undefined;
 }
 
 interface StyleMap {
@@ -397,7 +397,8 @@ function updateClass(
   }
 
   for (const component of Object.keys(newTokens)) {
-    toggleClass(classList, component, newTokens[component]!);
+    // The second argument of `toggle()` is ignored if it is undefined.
+    toggleClass(classList, component, !!newTokens[component]);
   }
 }
 
-- 
2.43.0


From c8d07a9bf59dcb3e88f9b88b3c1b286eecb2f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 25/26] fix: end transitions whose action throws

---
 src/addons/hooks.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d49b3f1..714a958 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -113,7 +113,13 @@ export function Transition(): HookFunction<
           setIsPending(false, { transition });
         };
         setIsPending(true, { flushSync: true });
-        const result = action(transition);
+        let result: T;
+        try {
+          result = action(transition);
+        } catch (error) {
+          endTransition();
+          throw error;
+        }
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
         } else {
-- 
2.43.0


From 94e66b0897a0da9d9c1c5801cef876b6f0f98856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:54 +0000
Subject: [PATCH 26/26] fix: mark derivable values dirty before notifying
 subscribers

---
 src/addons/signal/derivable.ts | 58 ++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 251bd5e..c33a687 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -169,14 +169,20 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
-  if (prop._owner !== null && prop._source instanceof Atom) {
-    const oldValue = prop._source.value;
-    prop._source.value = undefined;
+  const source = prop._source;
+  const isOwnedAtom = prop._owner !== null && source instanceof Atom;
+  if (isOwnedAtom) {
+    const oldValue = source.value;
     if (isNonPrimitive(oldValue)) {
       detachDrafts(prop as Derivable<any>, oldValue);
     }
     prop._flags &= ~FLAG_NEEDS_COMMIT;
   }
+  prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
+  markOwners(prop);
+  if (isOwnedAtom) {
+    (source as Atom<T | undefined>).value = undefined;
+  }
   for (
     let owner = prop._owner, reversePath = [prop._key!];
     owner !== null;
@@ -192,10 +198,8 @@ function deleteProperty<T>(prop: Derivable<T>): void {
         },
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
 }
 
 // Moves the drafts of the old value to another receiver, since they must not
@@ -385,6 +389,30 @@ function isNonPrimitive(value: unknown): value is object {
   );
 }
 
+// Flags are set before subscribers are notified, since they may read values and
+// thereby commit them.
+function markOwners(prop: Derivable<any>): void {
+  for (let owner = prop._owner; owner !== null; owner = owner._owner) {
+    owner._flags |= FLAG_DIRTY_VALUE;
+  }
+}
+
+function markPending<T>(
+  receiver: Derivable<T>,
+  oldValue: T,
+  newValue: T,
+): void {
+  if (
+    isNonPrimitive(oldValue) &&
+    (receiver._flags & FLAG_NEEDS_COMMIT || !is(oldValue, newValue))
+  ) {
+    detachDrafts(receiver, oldValue);
+  }
+  receiver._flags |= FLAG_PENDING_VALUE;
+  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
+  markOwners(receiver);
+}
+
 function normalizeKey(key: PropertyKey): NormalizedKey {
   return typeof key === 'number' ? key.toString() : key;
 }
@@ -483,14 +511,15 @@ function resolveProperty<T>(
 }
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
-  const oldValue = receiver._source.value;
-  // Intentionally throws a TypeError if signal is a Computed (which has no setter).
-  (receiver._source as WritableSignal<T>).value = newValue;
-  if (
-    isNonPrimitive(oldValue) &&
-    (receiver._flags & FLAG_NEEDS_COMMIT || !is(oldValue, newValue))
-  ) {
-    detachDrafts(receiver, oldValue);
+  const source = receiver._source;
+  const oldValue = source.value;
+  if (source instanceof Atom) {
+    markPending(receiver, oldValue, newValue);
+    source.value = newValue;
+  } else {
+    // Intentionally throws a TypeError if signal is a Computed (which has no setter).
+    (source as WritableSignal<T>).value = newValue;
+    markPending(receiver, oldValue, newValue);
   }
   for (
     let owner = receiver._owner, reversePath = [receiver._key!];
@@ -509,11 +538,8 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
         newValue,
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  receiver._flags |= FLAG_PENDING_VALUE;
-  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
   if (receiver._owner !== null) {
     const target = receiver._owner._source.value;
     if (Array.isArray(target)) {
-- 
2.43.0

