From 045b23670e2f06506422e0b8e0eae8a5acd9948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 001/111] fix: GrammarBase.detach keeps the remaining reference
 count instead of decrementing it twice

---
 packages/vgrammar-core/src/view/grammar-base.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/grammar-base.ts b/packages/vgrammar-core/src/view/grammar-base.ts
index 759ef5e..1c5ca7f 100644
--- a/packages/vgrammar-core/src/view/grammar-base.ts
+++ b/packages/vgrammar-core/src/view/grammar-base.ts
@@ -168,7 +168,7 @@ export abstract class GrammarBase extends EventEmitter implements IGrammarBase {
       .forEach(ref => {
         const refCount = this.references.get(ref) - count;
         if (refCount > 0) {
-          this.references.set(ref, refCount - 1);
+          this.references.set(ref, refCount);
         } else {
           this.references.delete(ref);
           if (ref.targets.includes(this)) {
-- 
2.43.0


From 9bcbe2243b32a64ed5ea7a8ac2c90d3e560daa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 002/111] fix: Scale.configure releases the references of the
 previous configuration

---
 packages/vgrammar-core/src/view/scale.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 0e4a53e..5df4afb 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -172,12 +172,12 @@ export class Scale extends GrammarBase implements IScale {
   }
 
   configure(config: ScaleConfigureSpec | Nil) {
-    this.detach(parseScaleConfig(this.spec.type, config, this.view));
+    this.detach(parseScaleConfig(this.spec.type, this.spec, this.view));
     if (isNil(config)) {
       this.spec = { type: this.spec.type, domain: this.spec.domain, range: this.spec.range } as ScaleSpec;
     } else {
       Object.assign(this.spec, config);
-      this.attach(parseScaleConfig(this.spec.type, config, this.view));
+      this.attach(parseScaleConfig(this.spec.type, this.spec, this.view));
     }
     this.commit();
     return this;
-- 
2.43.0


From 62d9107188110facb02da31c471170d6b2b56a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 003/111] fix: keep grammar references found in array-valued
 transform options

---
 packages/vgrammar-core/src/parse/transform.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/parse/transform.ts b/packages/vgrammar-core/src/parse/transform.ts
index d5e8c36..46882c6 100644
--- a/packages/vgrammar-core/src/parse/transform.ts
+++ b/packages/vgrammar-core/src/parse/transform.ts
@@ -69,7 +69,7 @@ const parseTransformOption = (key: string, transformSpecValue: TransformSpecValu
     return {
       references: values.reduce((res: any[], val: any) => {
         if (val.references) {
-          res.concat(val.references);
+          return res.concat(val.references);
         }
 
         return res;
-- 
2.43.0


From 3e195acdbd47bde948980a94d638234940533b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 004/111] fix: Data drops its upstream source when it is given
 values or a url

---
 packages/vgrammar-core/src/view/data.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/data.ts b/packages/vgrammar-core/src/view/data.ts
index c977849..7580da2 100644
--- a/packages/vgrammar-core/src/view/data.ts
+++ b/packages/vgrammar-core/src/view/data.ts
@@ -199,6 +199,8 @@ export class Data extends GrammarBase implements IData {
     this.detach(this.parseDataSource(this.spec).refs);
 
     this.spec = spec;
+    // forget the last upstream data, it will be set again if the new spec has a valid source
+    this.grammarSource = null;
 
     const dataSourceResult = this.parseDataSource(this.spec);
     this.attach(dataSourceResult.refs);
-- 
2.43.0


From 385ad3f896700f3a93e1f1a4ab31f614e4a8ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 005/111] fix: attributes of runtime states are not cached as
 attributes of the encoded state

---
 packages/vgrammar-core/src/graph/element.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index a8454d7..09e9cda 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -492,10 +492,13 @@ export class Element implements IElement {
 
     const graphicAttributes = this.transformElementItems(stateItems, this.mark.markType);
 
-    if (!this.graphicItem.states) {
-      this.graphicItem.states = { [stateName]: graphicAttributes };
-    } else if (!this.graphicItem.states[stateName]) {
-      this.graphicItem.states[stateName] = graphicAttributes;
+    // attributes of runtime states should not be cached
+    if (!isRuntimeState) {
+      if (!this.graphicItem.states) {
+        this.graphicItem.states = { [stateName]: graphicAttributes };
+      } else if (!this.graphicItem.states[stateName]) {
+        this.graphicItem.states[stateName] = graphicAttributes;
+      }
     }
 
     return graphicAttributes;
-- 
2.43.0


From 251df3ca7fc85151730899fd77ae9b12670a895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 006/111] fix: a runtime state that is not active is applied
 again with the same attributes

---
 packages/vgrammar-core/src/graph/element.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index 09e9cda..11e90fa 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -359,7 +359,8 @@ export class Element implements IElement {
 
       const stateValue = states[stateKey];
       const isRuntimeStateUpdate =
-        isObject(stateValue) && !isObjEqual(stateValue, this.runtimeStatesEncoder?.[stateKey]);
+        isObject(stateValue) &&
+        (!nextStates.includes(stateKey) || !isObjEqual(stateValue, this.runtimeStatesEncoder?.[stateKey]));
 
       if (isRuntimeStateUpdate) {
         if (nextStates.includes(stateKey)) {
@@ -407,7 +408,10 @@ export class Element implements IElement {
       return false;
     }
 
-    const isRuntimeStateUpdate = attrs && isString(state) && !isObjEqual(attrs, this.runtimeStatesEncoder?.[state]);
+    const isRuntimeStateUpdate =
+      attrs &&
+      isString(state) &&
+      (!this.states.includes(state) || !isObjEqual(attrs, this.runtimeStatesEncoder?.[state]));
     if (isRuntimeStateUpdate) {
       const nextStates = this.states.slice();
       if (!nextStates.includes(state)) {
-- 
2.43.0


From ac0303abaa4500e55d863560a0212d5010e04a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 007/111] fix: keep animation events paired when the animation
 config is replaced while animators are running

---
 .../src/graph/animation/animate.ts            | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index dbab67a..7876123 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -35,7 +35,8 @@ export class Animate implements IAnimate {
       count: { [state: string]: number };
     }
   > = new WeakMap();
-  private timelineCount: Record<string, number> = {};
+  // running animators of each timeline, the config of a timeline might be replaced when its animators are still running
+  private timelineCount: { id: string; originConfig: IAnimationConfig; count: number }[] = [];
   // record: IAnimationRecord;
 
   constructor(mark: IMark, config: Record<string, IAnimationConfig | IAnimationConfig[]>) {
@@ -280,10 +281,6 @@ export class Animate implements IAnimate {
     });
 
     if (animatedElements.length) {
-      if (isNil(this.timelineCount[config.id])) {
-        this.timelineCount[config.id] = 0;
-      }
-
       if (config.timeline.sort) {
         animatedElements.sort((elementA, elementB) => {
           return config.timeline.sort(elementA.getDatum(), elementB.getDatum(), elementA, elementB, parameters);
@@ -347,9 +344,14 @@ export class Animate implements IAnimate {
       element.isReserved = true;
     }
 
-    const isFirstAnimator = this.timelineCount[config.id] === 0;
+    let runningTimeline = this.findRunningTimeline(config);
+    const isFirstAnimator = !runningTimeline;
 
-    this.timelineCount[config.id] += 1;
+    if (!runningTimeline) {
+      runningTimeline = { id: config.id, originConfig: config.originConfig, count: 0 };
+      this.timelineCount.push(runningTimeline);
+    }
+    runningTimeline.count += 1;
     const elementRecord = this.elementRecorder.get(element) ?? { prevState: config.state, count: {} };
     elementRecord.prevState = config.state;
     elementRecord.count[config.state] = (elementRecord.count[config.state] ?? 0) + 1;
@@ -381,6 +383,12 @@ export class Animate implements IAnimate {
     return animator;
   }
 
+  private findRunningTimeline(config: IParsedAnimationConfig) {
+    return this.timelineCount.find(
+      timeline => timeline.id === config.id && timeline.originConfig === config.originConfig
+    );
+  }
+
   private getAnimationState(element: IElement): string {
     const customState = invokeFunctionType(this.state, this.mark.parameters(), element.getDatum(), element);
     return customState ?? element.diffState;
@@ -479,7 +487,7 @@ export class Animate implements IAnimate {
 
   private handleAnimatorEnd(animator: IAnimator, clearElement: boolean = true) {
     const element = animator.element;
-    const animationOptions = animator.animationOptions;
+    const animationOptions = animator.animationOptions as IParsedAnimationConfig;
     const animationState = animationOptions.state;
     const isImmediateAnimation = animationState === ImmediateAnimationState;
 
@@ -498,14 +506,12 @@ export class Animate implements IAnimate {
     if (this.animators.get(animationState).length === 0) {
       this.animators.delete(animationState);
     }
-    this.timelineCount[animationOptions.id] -= 1;
-    const isLastAnimator = this.timelineCount[animationOptions.id] === 0;
+    const runningTimeline = this.findRunningTimeline(animationOptions);
+    runningTimeline.count -= 1;
+    const isLastAnimator = runningTimeline.count === 0;
 
-    const originAnimationConfig = isImmediateAnimation
-      ? this.immediateConfigs.find(config => config.id === animationOptions.id).originConfig
-      : this.configs.find(config => config.id === animationOptions.id).originConfig;
     if (isLastAnimator) {
-      delete this.timelineCount[animationOptions.id];
+      this.timelineCount = this.timelineCount.filter(timeline => timeline !== runningTimeline);
       // delete config when immediate executed animation is finished
       if (isImmediateAnimation) {
         this.immediateConfigs = this.immediateConfigs.filter(config => config.id !== animationOptions.id);
@@ -513,7 +519,7 @@ export class Animate implements IAnimate {
     }
 
     if (clearElement) {
-      if (Object.keys(this.timelineCount).length === 0) {
+      if (this.timelineCount.length === 0) {
         this.clearAllElements();
       } else if (animationState === DiffState.exit && stateAnimationCounts[DiffState.exit] === 0) {
         // if all exit animations are finished
@@ -525,7 +531,7 @@ export class Animate implements IAnimate {
     const animationEvent: AnimationEvent = {
       mark: this.mark,
       animationState,
-      animationConfig: originAnimationConfig
+      animationConfig: animationOptions.originConfig
     };
     if (isLastAnimator) {
       this.mark.emit(HOOK_EVENT.ANIMATION_END, animationEvent);
-- 
2.43.0


From 6c1462c1f405aad5f07e2cab3681ab13ca69898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 008/111] fix: run all exit animation configs on an exiting
 element

---
 .../src/graph/animation/animate.ts             | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index 7876123..2adc057 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -90,8 +90,9 @@ export class Animate implements IAnimate {
       }
     });
 
+    const animatableElements = this.getAnimatableElements(elements);
     this.configs.forEach(config => {
-      this.animateByTimeline(config, elements, parameters);
+      this.animateByTimeline(config, animatableElements, parameters);
     });
 
     this.mark.cleanExitElements();
@@ -108,7 +109,7 @@ export class Animate implements IAnimate {
     // if (this.animators.get(animationState)?.length > 0) { return; }
 
     const stateConfigs = this.configs.filter(config => config.state === animationState);
-    const elements = this.mark.getAllElements();
+    const elements = this.getAnimatableElements(this.mark.getAllElements());
     const parameters = this.mark.parameters();
 
     const animators = stateConfigs.reduce((animators, config) => {
@@ -146,7 +147,7 @@ export class Animate implements IAnimate {
 
     const parsedConfigs = normalizeStateAnimationConfig(ImmediateAnimationState, config, this.immediateConfigs.length);
     this.immediateConfigs = this.immediateConfigs.concat(parsedConfigs);
-    const elements = this.mark.getAllElements();
+    const elements = this.getAnimatableElements(this.mark.getAllElements());
     const parameters = this.mark.parameters();
 
     const animators = parsedConfigs.reduce((animators, config) => {
@@ -259,6 +260,12 @@ export class Animate implements IAnimate {
     this.timelineCount = null;
   }
 
+  // do not animate on element which is running exit animation
+  // if an element is reserved, it should be set for exit animation and will be removed
+  private getAnimatableElements(elements: IElement[]) {
+    return elements.filter(element => !(element.isReserved && element.diffState === DiffState.exit));
+  }
+
   private animateByTimeline(
     config: IParsedAnimationConfig,
     elements: IElement[],
@@ -267,9 +274,6 @@ export class Animate implements IAnimate {
   ) {
     const animators: IAnimator[] = [];
     const animatedElements = elements.filter(element => {
-      // do not animate on element which is running exit animation
-      // if an element is reserved, it should be set for exit animation and will be removed
-      const checkExit = !(element.isReserved && element.diffState === DiffState.exit);
       // do not check animation state if forceState is set
       const state = this.getAnimationState(element);
       const checkDisabled = !this.disabledStates.includes(state);
@@ -277,7 +281,7 @@ export class Animate implements IAnimate {
       // filter elements by partitioner config
       const checkPartitioner =
         !config.timeline.partitioner || config.timeline.partitioner(element.getDatum(), element, parameters);
-      return checkExit && checkDisabled && checkState && checkPartitioner;
+      return checkDisabled && checkState && checkPartitioner;
     });
 
     if (animatedElements.length) {
-- 
2.43.0


From de4e4ec7b3651e7989ba48e177a8553aa747c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 009/111] fix: do not reuse the id of a running immediate
 animation

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index 2adc057..d5286f3 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -22,6 +22,7 @@ export class Animate implements IAnimate {
   state: MarkFunctionType<string> | null = null;
   configs: Array<IParsedAnimationConfig>;
   immediateConfigs: Array<IParsedAnimationConfig> = [];
+  private immediateConfigCount: number = 0;
 
   private isEnabled: boolean = true;
   private disabledStates: string[] = [];
@@ -145,7 +146,8 @@ export class Animate implements IAnimate {
       return;
     }
 
-    const parsedConfigs = normalizeStateAnimationConfig(ImmediateAnimationState, config, this.immediateConfigs.length);
+    const parsedConfigs = normalizeStateAnimationConfig(ImmediateAnimationState, config, this.immediateConfigCount);
+    this.immediateConfigCount += parsedConfigs.length;
     this.immediateConfigs = this.immediateConfigs.concat(parsedConfigs);
     const elements = this.getAnimatableElements(this.mark.getAllElements());
     const parameters = this.mark.parameters();
-- 
2.43.0


From 1659426f3e44ffd579b2b2e0e07f36cffaf3fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 010/111] fix: isElementAnimating returned the opposite

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index d5286f3..591ee75 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -200,7 +200,7 @@ export class Animate implements IAnimate {
 
   isElementAnimating(element: IElement) {
     const stateAnimationCounts = this.elementRecorder.get(element)?.count;
-    return isNil(stateAnimationCounts) || Object.values(stateAnimationCounts).every(count => count === 0);
+    return !isNil(stateAnimationCounts) && Object.values(stateAnimationCounts).some(count => count > 0);
   }
 
   getAnimatorCount() {
-- 
2.43.0


From a6f1cd4d485d5ca1a8d6416b3c5e15ed797696f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 011/111] fix: attributes encoded for the new state survive
 stopWhenStateChange

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index 591ee75..b92aa9f 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -84,6 +84,11 @@ export class Animate implements IAnimate {
       });
       if (needStopAnimation) {
         this.clearElementAnimation(element, false);
+        // stopped animations left their own end attributes, which should not override the attributes just encoded
+        const nextAttributes = element.diffState !== DiffState.exit && element.getNextGraphicAttributes();
+        if (nextAttributes) {
+          element.setGraphicAttributes(nextAttributes);
+        }
       }
       // clear animations for exit elements
       else if (element.diffState === DiffState.exit && prevElementState !== element.diffState) {
-- 
2.43.0


From e8fd28d5907c2ea5adc951cb1008d0df0709c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 012/111] fix: identifier transform returns the data instead of
 the counter

---
 packages/vgrammar-core/src/transforms/view/identifier.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/view/identifier.ts b/packages/vgrammar-core/src/transforms/view/identifier.ts
index 2efa5bf..14f39d6 100644
--- a/packages/vgrammar-core/src/transforms/view/identifier.ts
+++ b/packages/vgrammar-core/src/transforms/view/identifier.ts
@@ -28,5 +28,5 @@ export const transform = (options: IdentifierTransformOptions, upstreamData: any
   });
   view[COUNTER_NAME] = id;
 
-  return id;
+  return upstreamData;
 };
-- 
2.43.0


From d9a655d349ea45993463ea00c756261a4e465616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 013/111] fix: sort transform no longer reorders the upstream
 data in place

---
 packages/vgrammar-core/src/transforms/data/sort.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/sort.ts b/packages/vgrammar-core/src/transforms/data/sort.ts
index effd1a2..7a5f1d7 100644
--- a/packages/vgrammar-core/src/transforms/data/sort.ts
+++ b/packages/vgrammar-core/src/transforms/data/sort.ts
@@ -8,7 +8,8 @@ export const transform = (options: SortTransformOptions, upstreamData: any[]) =>
   if (sort && upstreamData) {
     const sortFn = isFunction(sort) ? sort : compare(sort.field, sort.order);
 
-    upstreamData.sort((a: any, b: any) => sortFn(a, b));
+    // the upstream array may be shared with the input or other grammars, never reorder it in place
+    return upstreamData.slice().sort((a: any, b: any) => sortFn(a, b));
   }
 
   return upstreamData;
-- 
2.43.0


From 056d5b57422f5779c0550f4eb80a8d2759bbb9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 014/111] fix: pie transform works without asEndAngle

---
 packages/vgrammar-core/src/transforms/data/pie.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/pie.ts b/packages/vgrammar-core/src/transforms/data/pie.ts
index 8a31d8d..eb145db 100644
--- a/packages/vgrammar-core/src/transforms/data/pie.ts
+++ b/packages/vgrammar-core/src/transforms/data/pie.ts
@@ -29,9 +29,9 @@ export const transform = (options: PieTransformOption, upstreamData: any[]) => {
     asQuadrant && (datum[asQuadrant] = computeQuadrant(lastAngle + radian / 2));
     asK && (datum[asK] = Number.parseFloat(datum[field]) / max);
 
-    lastAngle = datum[asEndAngle];
+    lastAngle += radian;
     return datum;
   });
-  data[data.length - 1][asEndAngle] = endAngle;
+  asEndAngle && (data[data.length - 1][asEndAngle] = endAngle);
   return data;
 };
-- 
2.43.0


From 53b37e742c00bc237ff6053aa80830aca1730f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 015/111] fix: bin transform puts the end of the extent into
 the last bin

---
 packages/vgrammar-core/src/transforms/data/bin.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/bin.ts b/packages/vgrammar-core/src/transforms/data/bin.ts
index f6a72de..b9b99bc 100644
--- a/packages/vgrammar-core/src/transforms/data/bin.ts
+++ b/packages/vgrammar-core/src/transforms/data/bin.ts
@@ -16,7 +16,11 @@ export const transform = (options: BinTransformOption, upstreamData: any[]) => {
   return upstreamData.map(upstreamDatum => {
     const datum = Object.assign({}, upstreamDatum);
     const value = upstreamDatum[options.field];
-    const binIndex = Math.floor((value - extent[0]) / binStep);
+    // the last bin includes the end of the extent
+    const binIndex =
+      value === extent[1] && range > 0
+        ? Math.ceil(range / binStep) - 1
+        : Math.floor((value - extent[0]) / binStep);
     const binStart = extent[0] + binIndex * binStep;
     const binEnd = Math.min(extent[1], extent[0] + (binIndex + 1) * binStep);
     datum[options.as?.[0] ?? 'binStart'] = binStart;
-- 
2.43.0


From b55685df3ae5c01126318e465da8d11b327ad2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 016/111] fix: unfold groups by the values of the fields, not
 by their joined text

---
 packages/vgrammar-core/src/transforms/data/unfold.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/unfold.ts b/packages/vgrammar-core/src/transforms/data/unfold.ts
index 02a40d6..74c20f1 100644
--- a/packages/vgrammar-core/src/transforms/data/unfold.ts
+++ b/packages/vgrammar-core/src/transforms/data/unfold.ts
@@ -34,7 +34,7 @@ export const transform = (options: UnfoldTransformOptions, upstreamData: any[])
         keys.push(entry[field]);
       });
 
-      const groupKey = keys.join('~');
+      const groupKey = JSON.stringify(keys);
 
       if (groups[groupKey]) {
         if (groups[groupKey].values[entry[keyField]]) {
-- 
2.43.0


From 5009d408e094fea7a1b16f8be81438518c9aa0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 017/111] fix: references inside of array options of transforms
 are resolved

---
 packages/vgrammar-core/src/parse/option.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/parse/option.ts b/packages/vgrammar-core/src/parse/option.ts
index bce7cad..1d6e753 100644
--- a/packages/vgrammar-core/src/parse/option.ts
+++ b/packages/vgrammar-core/src/parse/option.ts
@@ -1,10 +1,13 @@
-import { isFunction, isObject } from '@visactor/vutils';
+import { isArray, isFunction, isObject } from '@visactor/vutils';
 import type { IGrammarBase } from '../types';
 import { isGrammar } from './util';
 
 export const parseOptionValue = (value: IGrammarBase | any, params: any) => {
   if (isGrammar(value)) {
     return value.output();
+  } else if (isArray(value)) {
+    // references may be elements of an array
+    return value.map((entry: any) => (isGrammar(entry) ? entry.output() : entry));
   } else if (value && isObject<any>(value)) {
     if (isFunction(value.callback)) {
       return (datum: any) => {
-- 
2.43.0


From 9c4bd407d74bfb7083578d661d5d56bc65b92be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 018/111] fix: aggregated sampling no longer leaks values into
 the next frame

---
 packages/vgrammar-core/src/transforms/data/sampling.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/sampling.ts b/packages/vgrammar-core/src/transforms/data/sampling.ts
index 6cc3c18..86bd70a 100644
--- a/packages/vgrammar-core/src/transforms/data/sampling.ts
+++ b/packages/vgrammar-core/src/transforms/data/sampling.ts
@@ -98,7 +98,8 @@ function sample(size: number, array: any[], isGroup: boolean, mode: 'min' | 'max
       frameValues.push(array[i + k][yfield]);
     }
     const value = samplerMap[mode](frameValues);
-    sampledIndex = Math.min(Math.round(i + frameValues.length / 2) || 0, len - 1);
+    // the sampled row belongs to its own frame, otherwise its value leaks into the next frame
+    sampledIndex = Math.min(Math.round(i + frameValues.length / 2) || 0, i + frameValues.length - 1);
     array[sampledIndex][yfield] = value;
     newIndices.push(sampledIndex);
   }
-- 
2.43.0


From 268ae688b96289e088b9a887eab60785f80f8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 019/111] fix: Signal.set replaces a pending value

---
 packages/vgrammar-core/src/view/signal.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/signal.ts b/packages/vgrammar-core/src/view/signal.ts
index f1388b2..d4b9b0b 100644
--- a/packages/vgrammar-core/src/view/signal.ts
+++ b/packages/vgrammar-core/src/view/signal.ts
@@ -48,7 +48,8 @@ export class Signal<T> extends GrammarBase implements ISignal<T> {
       }
       return false;
     }
-    if (this._signal !== value) {
+    // a value given by value() but not evaluated yet is replaced as well
+    if (this._signal !== value || this.spec.value !== value) {
       this._signal = value;
       this.spec.value = value;
 
-- 
2.43.0


From 6429896dc3105e903a47392b952637ba97a642d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 020/111] fix: extents of scale domains ignore nil and NaN
 values

---
 packages/vgrammar-core/src/parse/scale.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 337053a..9fb6602 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -2,7 +2,6 @@ import {
   isArray,
   isFunction,
   isNil,
-  isNumber,
   isString,
   isValidNumber,
   maxInArray,
@@ -460,7 +459,8 @@ function parseScaleDataTypeValue(
   }
 
   if (filterNumber) {
-    fieldData.filter(entry => isNumber(entry));
+    // nil and NaN values can not be compared, dates and numeric strings can
+    fieldData = fieldData.filter(entry => !isNil(entry) && !Number.isNaN(+entry));
   }
   return [minInArray(fieldData), maxInArray(fieldData)];
 }
-- 
2.43.0


From a3368ddba9c78815fb8f2ec78ccb11a357412c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 021/111] fix: falsy options of band scales replace the
 previous ones

---
 packages/vgrammar-core/src/parse/scale.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 9fb6602..8aedb2d 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -394,11 +394,11 @@ function configureQuantizeScale(spec: QuantizeScaleSpec, scale: IQuantizeScale,
 }
 
 function configureBaseBandScale(spec: BaseBandScaleSpec, scale: IBandLikeScale, parameters: any) {
-  spec.round && scale.round(invokeFunctionType(spec.round, parameters, scale), true);
-  spec.padding && scale.padding(invokeFunctionType(spec.padding, parameters, scale), true);
-  spec.paddingInner && scale.paddingInner(invokeFunctionType(spec.paddingInner, parameters, scale), true);
-  spec.paddingOuter && scale.paddingOuter(invokeFunctionType(spec.paddingOuter, parameters, scale), true);
-  spec.align && scale.align(invokeFunctionType(spec.align, parameters, scale), true);
+  !isNil(spec.round) && scale.round(invokeFunctionType(spec.round, parameters, scale), true);
+  !isNil(spec.padding) && scale.padding(invokeFunctionType(spec.padding, parameters, scale), true);
+  !isNil(spec.paddingInner) && scale.paddingInner(invokeFunctionType(spec.paddingInner, parameters, scale), true);
+  !isNil(spec.paddingOuter) && scale.paddingOuter(invokeFunctionType(spec.paddingOuter, parameters, scale), true);
+  !isNil(spec.align) && scale.align(invokeFunctionType(spec.align, parameters, scale), true);
 }
 
 function configureBandScale(spec: BandScaleSpec, scale: IBandLikeScale, parameters: any) {
-- 
2.43.0


From 632f8bb55d58468d2b83c9cc598dfa4aeaf90031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 022/111] fix: the data domain of a quantize scale is the
 extent of the data

---
 packages/vgrammar-core/src/parse/scale.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 8aedb2d..046a189 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -446,7 +446,7 @@ function parseMultiFieldData(spec: MultiScaleData, parameters: any) {
 
 function parseScaleDataTypeValue(
   fieldData: any[],
-  scale: IBaseScale,
+  type: GrammarScaleType,
   sort?: (datumA: any, datumB: any) => number,
   filterNumber?: boolean
 ) {
@@ -454,7 +454,8 @@ function parseScaleDataTypeValue(
     fieldData.sort(sort);
   }
 
-  if (!isContinuous(scale.type)) {
+  // the domain of a quantize scale is continuous, though its range is discrete
+  if (!isContinuous(type) && !(type === 'quantize' && filterNumber)) {
     return fieldData;
   }
 
@@ -466,11 +467,12 @@ function parseScaleDataTypeValue(
 }
 
 export function configureScale(spec: ScaleSpec, scale: IBaseScale, parameters: any) {
+  const type = spec.type === 'quantize' ? spec.type : (scale.type as GrammarScaleType);
   if (isScaleDataType(spec.domain)) {
-    scale.domain(parseScaleDataTypeValue(parseFieldData(spec.domain, parameters), scale, spec.domain.sort, true), true);
+    scale.domain(parseScaleDataTypeValue(parseFieldData(spec.domain, parameters), type, spec.domain.sort, true), true);
   } else if (isMultiScaleDataType(spec.domain)) {
     scale.domain(
-      parseScaleDataTypeValue(parseMultiFieldData(spec.domain, parameters), scale, spec.domain.sort, true),
+      parseScaleDataTypeValue(parseMultiFieldData(spec.domain, parameters), type, spec.domain.sort, true),
       true
     );
   } else {
@@ -479,9 +481,9 @@ export function configureScale(spec: ScaleSpec, scale: IBaseScale, parameters: a
 
   if (spec.type !== 'identity') {
     if (isScaleDataType(spec.range)) {
-      scale.range(parseScaleDataTypeValue(parseFieldData(spec.range, parameters), scale), true);
+      scale.range(parseScaleDataTypeValue(parseFieldData(spec.range, parameters), type), true);
     } else if (isMultiScaleDataType(spec.range)) {
-      scale.range(parseScaleDataTypeValue(parseMultiFieldData(spec.range, parameters), scale), true);
+      scale.range(parseScaleDataTypeValue(parseMultiFieldData(spec.range, parameters), type), true);
     } else if (isScaleCoordinateType(spec.range)) {
       const coord = getGrammarOutput(spec.range.coordinate, parameters);
 
-- 
2.43.0


From 2b16f4a540ae94d63f7bc3674eba7cad24fbf550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 023/111] fix: clearing the range factor of a scale takes
 effect

---
 packages/vgrammar-core/src/view/scale.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 5df4afb..a44b91a 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -57,8 +57,8 @@ export class Scale extends GrammarBase implements IScale {
       if (this._rangeFactor) {
         (this.scale as unknown as IRangeFactor).rangeFactor(this._rangeFactor);
       } else if ((this.scale as unknown as IRangeFactor).rangeFactor()) {
-        // clear rangeFactor
-        (this.scale as unknown as IRangeFactor).rangeFactor(null, false, true);
+        // clear rangeFactor, which the scales do for the whole range only
+        (this.scale as unknown as IRangeFactor).rangeFactor([0, 1]);
       }
 
       if (this._fishEyeOptions) {
-- 
2.43.0


From 82059462c19b6cc08ecc138d9585dc579adefd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 024/111] fix: element-select-by-graphic-name handles events
 which hit no element

---
 .../src/interactions/element-select-by-graphic-name.ts      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts b/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
index 5d37f74..dc3a165 100644
--- a/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
+++ b/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
@@ -6,6 +6,12 @@ export class ElementSelectByGraphicName extends ElementSelect {
   type: string = ElementSelectByGraphicName.type;
 
   start(element: InteractionEvent['element']) {
+    if (!element) {
+      // nothing is hit, only the reset of `ElementSelect` is needed
+      super.start(element);
+      return;
+    }
+
     const name = element.getGraphicItem()?.name;
     if (name) {
       this._marks.forEach(mark => {
-- 
2.43.0


From 2a6363391379fe0a09dd1af784bda9336afbdb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 025/111] fix: marks added after a removal are drawn in the
 order of the specification

---
 packages/vgrammar-core/src/view/group.ts |  3 +--
 packages/vgrammar-core/src/view/mark.ts  | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/view/group.ts b/packages/vgrammar-core/src/view/group.ts
index 91bf370..1cc1c8f 100644
--- a/packages/vgrammar-core/src/view/group.ts
+++ b/packages/vgrammar-core/src/view/group.ts
@@ -1,4 +1,3 @@
-import type { INode } from '@visactor/vrender-core';
 import { transformsByType } from '../graph/attributes';
 import { DefaultKey, DefaultMarkData } from '../graph/constants';
 import { BuiltInEncodeNames, GrammarMarkType, HOOK_EVENT } from '../graph/enums';
@@ -158,7 +157,7 @@ export class GroupMark extends Mark implements IGroupMark {
 
     graphicItem.name = `${this.id() || this.markType}`;
 
-    this.graphicParent.insertIntoKeepIdx(graphicItem as unknown as INode, this.graphicIndex);
+    this.insertGraphicNode(this.graphicParent, graphicItem);
     this.emit(HOOK_EVENT.AFTER_ADD_VRENDER_MARK, { graphicItem });
 
     return graphicItem;
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 05927c7..002bb04 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -649,7 +649,7 @@ export class Mark extends GrammarBase implements IMark {
       }
       this.graphicParent = this.graphicItem;
       if (groupGraphicItem && (this.graphicIndex !== markIndex || this.graphicItem.parent !== groupGraphicItem)) {
-        groupGraphicItem.insertIntoKeepIdx(this.graphicItem, markIndex);
+        this.insertGraphicNode(groupGraphicItem, this.graphicItem);
       }
     } else {
       this.graphicParent = groupGraphicItem;
@@ -661,6 +661,20 @@ export class Mark extends GrammarBase implements IMark {
     this.graphicIndex = markIndex;
   }
 
+  /** insert a graphic node of the mark right after the graphic nodes of the preceding sibling marks */
+  protected insertGraphicNode(parent: IGroup, node: any) {
+    const siblings = this.group?.children ?? [];
+    for (let i = siblings.indexOf(this) - 1; i >= 0; i -= 1) {
+      const siblingNode =
+        siblings[i].markType === GrammarMarkType.group ? siblings[i].getGroupGraphicItem() : siblings[i].graphicItem;
+      if (siblingNode && siblingNode.parent === parent) {
+        parent.insertAfter(node, siblingNode);
+        return;
+      }
+    }
+    parent.insertBefore(node, parent.firstChild);
+  }
+
   protected update(spec: MarkSpec) {
     this.emit(HOOK_EVENT.BEFORE_MARK_UPDATE);
     this._context = this.spec.context;
-- 
2.43.0


From 4fdd6617ac8aabc7105cfafcaca5bca9a6273fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 026/111] fix: options of a reused mark which are not specified
 any more fall back to their defaults

---
 packages/vgrammar-core/src/view/mark.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 002bb04..f2862d3 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -187,6 +187,12 @@ export class Mark extends GrammarBase implements IMark {
     this.graphicItem = mark.graphicItem;
     this.graphicIndex = mark.graphicIndex;
     this.graphicParent = mark.graphicParent;
+    // options which are not specified any more fall back to their defaults
+    this.graphicItem?.setAttributes({
+      zIndex: this.spec.zIndex ?? 0,
+      clip: this.spec.clip ?? false,
+      overflow: this.spec.overflow
+    });
 
     this.needClear = mark.needClear;
     this.isUpdated = mark.isUpdated;
-- 
2.43.0


From f9191f6f60fb9872bf2e8d9e8eb1b5440e59b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 027/111] fix: a mark replaced before its first run can be
 re-used

---
 packages/vgrammar-core/src/view/mark-animate-mixin.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/mark-animate-mixin.ts b/packages/vgrammar-core/src/view/mark-animate-mixin.ts
index f55b821..facfadd 100644
--- a/packages/vgrammar-core/src/view/mark-animate-mixin.ts
+++ b/packages/vgrammar-core/src/view/mark-animate-mixin.ts
@@ -17,8 +17,11 @@ class MarkAnimateMixin {
   }
 
   reuseAnimate(mark: IMark) {
-    this.animate = mark.animate;
-    this.animate.mark = this as unknown as IMark;
+    // a mark which has never been evaluated has no animate yet
+    if (mark.animate) {
+      this.animate = mark.animate;
+      this.animate.mark = this as unknown as IMark;
+    }
   }
 
   updateAnimate(spec: MarkSpec) {
-- 
2.43.0


From 32d88e74e5a4efb7dd14fbd71cdc4adebb0ad2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:56 +0000
Subject: [PATCH 028/111] fix: removing a group removes the marks it contains

---
 packages/vgrammar-core/src/view/View.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 6c849b1..061f7ff 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -419,6 +419,8 @@ export default class View extends EventEmitter implements IView {
     this._cachedGrammars.record(recordedGrammar);
     this._dataflow.remove(recordedGrammar);
     this.grammars.unrecord(recordedGrammar);
+    // marks can not outlive their group
+    (recordedGrammar as IGroupMark).children?.forEach(child => this.removeGrammar(child));
 
     // update layout tree after grammar update
     this._needBuildLayoutTree = true;
-- 
2.43.0


From 00344220e70b0f7c9ccfd7df0869636c027e74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 029/111] fix: several between events of the same types are
 bound independently

---
 .../src/view/view-event-mixin.ts              | 39 ++++++++++---------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index e59fe81..a79c60c 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -13,41 +13,34 @@ import View from './View';
 
 class ViewEventsMixin {
   private _eventConfig: IViewEventConfig;
-  private _eventCache: Record<string, () => void>;
   private _eventListeners: Array<{
     type: string;
     source: any;
     handler: any;
   }>;
 
-  event(eventSpec: EventSpec) {
+  /** bind an event, returns a function which unbinds it */
+  event(eventSpec: EventSpec): () => void {
     if ('between' in eventSpec) {
       const [starEvent, endEvent] = eventSpec.between;
-      // FIXME between需要生成唯一ID
-      const id = `${starEvent.type}-${eventSpec.type}-${endEvent.type}`;
 
+      let unbindEvent: any;
       let unbindEndEvent: any;
 
-      this.bindEvents(
+      const unbindStartEvent = this.bindEvents(
         Object.assign({}, starEvent, {
           callback: () => {
-            if (!this._eventCache) {
-              this._eventCache = {};
-            }
             // 中间的事件绑定
-            if (!this._eventCache[id]) {
-              const unbindEvent = this.bindEvents(eventSpec);
-              this._eventCache[id] = unbindEvent;
+            if (!unbindEvent) {
+              unbindEvent = this.bindEvents(eventSpec);
             }
             if (!unbindEndEvent) {
               // 结束的事件绑定
               unbindEndEvent = this.bindEvents(
                 Object.assign({}, endEvent, {
                   callback: () => {
-                    if (this._eventCache[id]) {
-                      this._eventCache[id]();
-                      this._eventCache[id] = null;
-                    }
+                    unbindEvent?.();
+                    unbindEvent = null;
                   }
                 })
               );
@@ -55,8 +48,14 @@ class ViewEventsMixin {
           }
         })
       );
+
+      return () => {
+        unbindStartEvent?.();
+        unbindEvent?.();
+        unbindEndEvent?.();
+      };
     } else if ('merge' in eventSpec) {
-      eventSpec.merge.forEach(entry => {
+      const unbindEvents = eventSpec.merge.map(entry => {
         const singleEvent: Partial<BaseEventSpec> = Object.assign({}, eventSpec);
 
         if (isString(entry)) {
@@ -65,11 +64,13 @@ class ViewEventsMixin {
           Object.assign(singleEvent, entry);
         }
         singleEvent.debounce = 50;
-        this.bindEvents(singleEvent as BaseEventSpec);
+        return this.bindEvents(singleEvent as BaseEventSpec);
       });
-    } else {
-      this.bindEvents(eventSpec);
+
+      return () => unbindEvents.forEach(unbindEvent => unbindEvent?.());
     }
+
+    return this.bindEvents(eventSpec);
   }
 
   // --- Event ---
-- 
2.43.0


From 8889f07e35b9e8c2d2e5c08e9329bf1f4168d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 030/111] fix: events of a replaced specification are unbound

---
 packages/vgrammar-core/src/view/View.ts             | 10 +++++++++-
 packages/vgrammar-core/src/view/view-event-mixin.ts |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 061f7ff..8eb9eec 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -133,6 +133,8 @@ export default class View extends EventEmitter implements IView {
     source: any;
     handler: any;
   }>;
+  /** unbind the events declared by the current spec */
+  private _unbindSpecEvents: Array<() => void> = [];
 
   private _theme: ITheme;
 
@@ -529,7 +531,11 @@ export default class View extends EventEmitter implements IView {
 
     if (spec.events && spec.events.length) {
       spec.events.forEach(eventConfig => {
-        (this as any).event?.(eventConfig);
+        const unbindEvent = (this as any).event?.(eventConfig);
+
+        if (unbindEvent) {
+          this._unbindSpecEvents.push(unbindEvent);
+        }
       });
     }
 
@@ -555,6 +561,8 @@ export default class View extends EventEmitter implements IView {
   }
 
   updateSpec(spec: ViewSpec) {
+    this._unbindSpecEvents.forEach(unbindEvent => unbindEvent());
+    this._unbindSpecEvents = [];
     this.removeAllInteractions();
     this.removeAllGrammars();
     return this.parseSpec(spec);
diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index a79c60c..dc53e49 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -160,6 +160,7 @@ class ViewEventsMixin {
         (this as unknown as IView).addEventListener(type, send, NO_TRAP);
 
         return () => {
+          (send as any).cancel?.();
           (this as unknown as IView).removeEventListener(type, send);
         };
       }
@@ -172,6 +173,7 @@ class ViewEventsMixin {
       });
 
       return () => {
+        (send as any).cancel?.();
         vglobal.removeEventListener(type, send);
 
         const index = this._eventListeners.findIndex((entry: any) => {
-- 
2.43.0


From 869dd061107c28de8a26872ea5c6254d4c3d9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 031/111] fix: waiting events are not handled after the view is
 released

---
 packages/vgrammar-core/src/view/view-event-mixin.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index dc53e49..8538e26 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -107,6 +107,11 @@ class ViewEventsMixin {
 
     const send = parseHandler(
       (evt?: any) => {
+        // the view has been released while a debounced or throttled event was waiting
+        if (!this._eventListeners) {
+          return;
+        }
+
         const needPreventDefault =
           (source === EVENT_SOURCE_VIEW && prevent(this._eventConfig, type)) ||
           (consume && (evt.cancelable === undefined || evt.cancelable));
-- 
2.43.0


From 4921c8389ff625065b31d4f5de6392e8c25cbc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 032/111] fix: the outer radius of a polar coordinate is the
 larger one of the pair

---
 packages/vgrammar-coordinate/src/polar.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-coordinate/src/polar.ts b/packages/vgrammar-coordinate/src/polar.ts
index 2e7c407..29ef36e 100644
--- a/packages/vgrammar-coordinate/src/polar.ts
+++ b/packages/vgrammar-coordinate/src/polar.ts
@@ -106,7 +106,7 @@ export class PolarCoordinate extends Coordinate implements IPolarCoordinate {
     this._isUserRadius = true;
     if (Array.isArray(radius)) {
       this.innerRadius = Math.min(radius[0], radius[1]);
-      this.outerRadius = Math.max(radius[1], radius[1]);
+      this.outerRadius = Math.max(radius[0], radius[1]);
     } else {
       this.innerRadius = Math.min(radius, outerRadius);
       this.outerRadius = Math.max(radius, outerRadius);
-- 
2.43.0


From 60c3d40ff2dbf9974361b6121fc31657f7a85564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 033/111] fix: marks keep their position in a coordinate when
 it is not encoded again

---
 packages/vgrammar-core/src/graph/element.ts | 31 ++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index 11e90fa..b882d8a 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -50,6 +50,11 @@ import type { IGraphic, ILine, IGraphicAttribute } from '@visactor/vrender-core'
 import { CustomPath2D } from '@visactor/vrender-core';
 import { invokeFunctionType, parseField } from '../parse/util';
 
+const COORDINATE_CHANNELS = [
+  ['x', 'y', 'x1', 'y1'],
+  ['r', 'theta', 'r1', 'theta1']
+];
+
 export class Element implements IElement {
   mark: IMark;
 
@@ -70,6 +75,9 @@ export class Element implements IElement {
   // hack before vRender refactoring
   items: MarkElementItem[] = [];
 
+  // latest position before coordinate transform, channels of position might not be encoded in every update
+  private coordinatePosition: Record<string, any> = {};
+
   constructor(mark: IMark) {
     this.mark = mark;
   }
@@ -305,9 +313,30 @@ export class Element implements IElement {
     }
     const coord = this.mark.coord.output() as IBaseCoordinate;
 
+    const isCollectionMark = this.mark.isCollectionMark();
+
     items.forEach(item => {
       const nextAttrs = item.nextAttrs;
-      const convertedPoint: IPointLike = coord.convert(nextAttrs);
+      const encodedChannels = COORDINATE_CHANNELS.filter(channels => channels.some(channel => channel in nextAttrs));
+      const position: Record<string, any> = {};
+
+      // channels which are not encoded this time keep the latest value
+      (encodedChannels.length ? encodedChannels : COORDINATE_CHANNELS).forEach(channels => {
+        channels.forEach(channel => {
+          if (channel in nextAttrs) {
+            position[channel] = nextAttrs[channel];
+          } else if (!isCollectionMark && channel in this.coordinatePosition) {
+            position[channel] = this.coordinatePosition[channel];
+          }
+        });
+      });
+      if (Object.keys(position).length === 0) {
+        return;
+      }
+      if (!isCollectionMark) {
+        this.coordinatePosition = position;
+      }
+      const convertedPoint: IPointLike = coord.convert(Object.assign({}, nextAttrs, position) as IPointLike);
       Object.assign(nextAttrs, convertedPoint);
     });
   }
-- 
2.43.0


From 77ca0de4436acaca9d7f818493c12ede36777f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 034/111] fix: marks and coordinates of an updated
 specification use nothing of the replaced coordinate

---
 packages/vgrammar-core/src/view/coordinate.ts | 2 +-
 packages/vgrammar-core/src/view/mark.ts       | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/coordinate.ts b/packages/vgrammar-core/src/view/coordinate.ts
index 3c8e9ee..289c17c 100644
--- a/packages/vgrammar-core/src/view/coordinate.ts
+++ b/packages/vgrammar-core/src/view/coordinate.ts
@@ -84,7 +84,7 @@ export class Coordinate extends GrammarBase implements ICoordinate {
     if (grammar.grammarType !== this.grammarType) {
       return this;
     }
-    this.coordinate = grammar.output();
+    // the coordinate is completely configured by the specification, nothing of the previous one should be left
     return this;
   }
 
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index f2862d3..7451cd9 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -172,7 +172,6 @@ export class Mark extends GrammarBase implements IMark {
     }
     const mark = grammar as Mark;
     this.markType = mark.markType;
-    this.coord = mark.coord;
 
     this.elementMap = mark.elementMap;
     this.elements = mark.elements;
-- 
2.43.0


From f13da954f7e3dbfefe4617863161840a9f75cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 035/111] fix: the default radius of a polar coordinate fits
 its origin at the first evaluation too

---
 packages/vgrammar-core/src/parse/coordinate.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/parse/coordinate.ts b/packages/vgrammar-core/src/parse/coordinate.ts
index 7abedbe..5aa8866 100644
--- a/packages/vgrammar-core/src/parse/coordinate.ts
+++ b/packages/vgrammar-core/src/parse/coordinate.ts
@@ -36,10 +36,11 @@ export function configureCoordinate(
   coordinate: IPolarCoordinate | ICartesianCoordinate,
   parameters: any
 ) {
+  // origin comes first, as the default radius fits the origin into the range of start and end
+  !isNil(spec.origin) && (coordinate as IPolarCoordinate).origin(invokeFunctionType(spec.origin, parameters) ?? [0, 0]);
   !isNil(spec.start) &&
     (coordinate as ICartesianCoordinate).start(invokeFunctionType(spec.start, parameters) ?? [0, 0]);
   !isNil(spec.end) && (coordinate as ICartesianCoordinate).end(invokeFunctionType(spec.end, parameters) ?? [0, 0]);
-  !isNil(spec.origin) && (coordinate as IPolarCoordinate).origin(invokeFunctionType(spec.origin, parameters) ?? [0, 0]);
 
   const transforms: CoordinateTransform[] = [];
   if (!isNil(spec.translate)) {
-- 
2.43.0


From 7dc6be9a8e068f35f7c179289be1944d45c34391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:36 +0000
Subject: [PATCH 036/111] fix: a re-used mark is drawn in its place after
 siblings were removed

---
 packages/vgrammar-core/src/view/mark.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 7451cd9..3386915 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -184,7 +184,8 @@ export class Mark extends GrammarBase implements IMark {
     this._context = mark._context;
     // set group in later evaluate progress
     this.graphicItem = mark.graphicItem;
-    this.graphicIndex = mark.graphicIndex;
+    // siblings might have changed since the previous index was read, the graphic is placed again
+    this.graphicIndex = null;
     this.graphicParent = mark.graphicParent;
     // options which are not specified any more fall back to their defaults
     this.graphicItem?.setAttributes({
-- 
2.43.0


From 81455c392c6a3a450a46af3ed9ca02e190f2d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 037/111] fix: scales of an updated specification keep no
 options of the replaced ones

---
 packages/vgrammar-core/src/view/scale.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index a44b91a..2091084 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -187,7 +187,7 @@ export class Scale extends GrammarBase implements IScale {
     if (grammar.grammarType !== this.grammarType) {
       return this;
     }
-    this.scale = grammar.output();
+    // the scale is completely configured by the specification, nothing of the previous one should be left
     return this;
   }
 
-- 
2.43.0


From 08ecbeba0416362735be954de6beac8e9ed05755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 038/111] fix: percentages of grid templates are parts of a
 hundred

---
 packages/vgrammar-core/src/graph/layout/grid.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/grid.ts b/packages/vgrammar-core/src/graph/layout/grid.ts
index 1bc1796..c400fee 100644
--- a/packages/vgrammar-core/src/graph/layout/grid.ts
+++ b/packages/vgrammar-core/src/graph/layout/grid.ts
@@ -20,7 +20,7 @@ function parseTemplate(template: number | string | 'auto', total: number) {
   } else if (trimmedTemplate.endsWith('%')) {
     const percent = parseFloat(trimmedTemplate.substring(0, trimmedTemplate.length - 1));
     if (isValidNumber(percent)) {
-      return percent * total;
+      return (percent * total) / 100;
     }
     return 0;
   }
-- 
2.43.0


From 62476c046275e427ee35a497b8d3e5f8fa498a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 039/111] fix: items of a grid without start or end line take
 one cell, lines after the last one mean the last one

---
 packages/vgrammar-core/src/graph/layout/grid.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/grid.ts b/packages/vgrammar-core/src/graph/layout/grid.ts
index c400fee..4930a5d 100644
--- a/packages/vgrammar-core/src/graph/layout/grid.ts
+++ b/packages/vgrammar-core/src/graph/layout/grid.ts
@@ -72,19 +72,19 @@ function computeGrid(layout: MarkGridContainerSpec, width: number, height: numbe
 }
 
 function normalizeIndex(index: number, count: number) {
-  return Math.min(index < 0 ? index + count : index - 1, count);
+  return Math.min(index < 0 ? index + count : index - 1, count - 1);
 }
 
 function normalizeStartEndIndex(start: number, end: number, count: number) {
   let finalStart = normalizeIndex(start, count);
   let finalEnd = normalizeIndex(end, count);
   if (!isValidNumber(start) && !isValidNumber(end)) {
-    finalStart = 1;
-    finalEnd = 2;
+    finalStart = 0;
+    finalEnd = 1;
   } else if (!isValidNumber(start)) {
-    finalEnd = normalizeIndex(finalStart + 1, count);
+    finalStart = Math.max(0, finalEnd - 1);
   } else if (!isValidNumber(end)) {
-    finalStart = normalizeIndex(Math.max(0, finalEnd - 1), count);
+    finalEnd = Math.min(finalStart + 1, count - 1);
   }
   if (finalStart > finalEnd) {
     const temp = finalEnd;
-- 
2.43.0


From 4e1c6b670b539998fbb346f97b0d7413212864f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 040/111] fix: the maximum height of children in relative
 layout is relative to the height

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index edb4c49..8ae9508 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -37,7 +37,7 @@ export const doRelativeLayout = (
   const viewBounds = parentLayoutBounds.clone();
   const groupLayoutSpec = group.getSpec().layout as MarkRelativeContainerSpec;
   const maxChildWidth = toPercent(groupLayoutSpec.maxChildWidth, viewBounds.width());
-  const maxChildHeight = toPercent(groupLayoutSpec.maxChildHeight, viewBounds.width());
+  const maxChildHeight = toPercent(groupLayoutSpec.maxChildHeight, viewBounds.height());
   let minDeltaX1 = 0;
   let minDeltaX2 = 0;
   let minDeltaY1 = 0;
-- 
2.43.0


From 7da0abfc83111959020359794f9a58ba8cd1571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 041/111] fix: marks outside of a relative layout take space at
 the right and bottom like at the left and top

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index 8ae9508..242654e 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -88,7 +88,7 @@ export const doRelativeLayout = (
       viewBounds.x1 += Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
       viewBounds.x2 -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       viewBounds.y1 += Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
-      viewBounds.y2 -= Math.max(bounds.y2 - parentLayoutBounds.y2) + padding.bottom;
+      viewBounds.y2 -= Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     }
   });
 
@@ -198,9 +198,9 @@ export const doRelativeLayout = (
       }
     } else if (layoutSpec.position === 'outside') {
       curLeftX -= Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
-      curRightX -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
+      curRightX += Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       curTopY -= Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
-      curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2) + padding.bottom;
+      curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     } else {
       child.layoutBounds = viewBounds;
     }
-- 
2.43.0


From 617fda3fbe797f0a81b6658c187f447c85ffbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 042/111] fix: vertical alignment in relative layout compares
 heights

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index 242654e..174676a 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -178,7 +178,7 @@ export const doRelativeLayout = (
       if (layoutSpec.align) {
         const childHeight = bounds.height() + padding.top + padding.bottom;
 
-        if (childWidth < viewBounds.width()) {
+        if (childHeight < viewBounds.height()) {
           if (layoutSpec.align === 'middle') {
             child.layoutBounds.y1 = (viewBounds.y1 + viewBounds.y2) / 2 - childHeight / 2;
             child.layoutBounds.y2 = child.layoutBounds.y1 + childHeight;
-- 
2.43.0


From 5024add9d024fdb3004c31c60386dcd3ade0f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 043/111] fix: layout does not modify the bounds of the graphic
 of its container

---
 packages/vgrammar-core/src/graph/layout/layout.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/layout.ts b/packages/vgrammar-core/src/graph/layout/layout.ts
index 559ee99..b472f04 100644
--- a/packages/vgrammar-core/src/graph/layout/layout.ts
+++ b/packages/vgrammar-core/src/graph/layout/layout.ts
@@ -1,4 +1,4 @@
-import { isFunction } from '@visactor/vutils';
+import { Bounds, isFunction } from '@visactor/vutils';
 import { SIGNAL_VIEW_HEIGHT, SIGNAL_PADDING, SIGNAL_VIEW_WIDTH } from './../../view/constants';
 import type { MarkRelativeContainerSpec, MarkGridContainerSpec } from './../../types/mark';
 import { GrammarMarkType } from '../enums';
@@ -35,12 +35,14 @@ export const defaultDoLayout = (layoutMarks: IMark[], options: ILayoutOptions, v
     } else if ((layoutSpec as MarkRelativeContainerSpec).display === 'relative') {
       if (layoutSpec.updateViewSignals) {
         const oldViewBox = view.getViewBox();
+        // bounds may be owned by graphic item
+        const layoutBounds = new Bounds().set(bounds.x1, bounds.y1, bounds.x2, bounds.y2);
 
         if (oldViewBox) {
-          bounds.intersect(oldViewBox);
+          layoutBounds.intersect(oldViewBox);
         }
 
-        const viewBounds = doRelativeLayout(mark as IGroupMark, layoutChildren, bounds, options);
+        const viewBounds = doRelativeLayout(mark as IGroupMark, layoutChildren, layoutBounds, options);
         const viewWidth = viewBounds.width();
         const viewHeight = viewBounds.height();
         const padding = {
-- 
2.43.0


From bc8a45dbea7d9cc0062baadfc903d30cd61818c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 044/111] fix: executing layout again starts from the same
 padding

---
 .../vgrammar-core/src/graph/layout/layout.ts  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/layout.ts b/packages/vgrammar-core/src/graph/layout/layout.ts
index b472f04..cc271f3 100644
--- a/packages/vgrammar-core/src/graph/layout/layout.ts
+++ b/packages/vgrammar-core/src/graph/layout/layout.ts
@@ -7,6 +7,10 @@ import type { ILayoutOptions, IView } from '../../types/view';
 import { doGridLayout } from './grid';
 import { doRelativeLayout } from './relative';
 import { Factory } from '../../core/factory';
+import { normalizePadding } from '../../parse/view';
+
+// padding before layout, by padding which is computed by layout
+const basePaddings = new WeakMap<object, { top: number; right: number; bottom: number; left: number }>();
 
 export const defaultDoLayout = (layoutMarks: IMark[], options: ILayoutOptions, view: IView) => {
   layoutMarks?.forEach(mark => {
@@ -34,13 +38,20 @@ export const defaultDoLayout = (layoutMarks: IMark[], options: ILayoutOptions, v
       layoutSpec.callback.call(null, mark as IGroupMark, layoutChildren, bounds, options);
     } else if ((layoutSpec as MarkRelativeContainerSpec).display === 'relative') {
       if (layoutSpec.updateViewSignals) {
-        const oldViewBox = view.getViewBox();
+        const oldPadding = view.getSignalById<any>(SIGNAL_PADDING).output();
+        // padding computed by layout should not be taken as space which is already occupied when layout is executed again
+        const basePadding = basePaddings.get(oldPadding) ?? normalizePadding(oldPadding);
         // bounds may be owned by graphic item
         const layoutBounds = new Bounds().set(bounds.x1, bounds.y1, bounds.x2, bounds.y2);
 
-        if (oldViewBox) {
-          layoutBounds.intersect(oldViewBox);
-        }
+        layoutBounds.intersect(
+          new Bounds().set(
+            basePadding.left,
+            basePadding.top,
+            view.width() - basePadding.right,
+            view.height() - basePadding.bottom
+          )
+        );
 
         const viewBounds = doRelativeLayout(mark as IGroupMark, layoutChildren, layoutBounds, options);
         const viewWidth = viewBounds.width();
@@ -51,6 +62,7 @@ export const defaultDoLayout = (layoutMarks: IMark[], options: ILayoutOptions, v
           left: viewBounds.x1,
           bottom: view.height() - viewBounds.y2
         };
+        basePaddings.set(padding, basePadding);
         (view as any).updateSignal(SIGNAL_VIEW_WIDTH, viewWidth);
         (view as any).updateSignal(SIGNAL_VIEW_HEIGHT, viewHeight);
         (view as any).updateSignal(SIGNAL_PADDING, padding);
-- 
2.43.0


From 10995ce535c900f087d7480565f08942d913e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 045/111] fix: removed marks of a group without other children
 are not laid out

---
 packages/vgrammar-core/src/view/group.ts | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/packages/vgrammar-core/src/view/group.ts b/packages/vgrammar-core/src/view/group.ts
index 1cc1c8f..a45d51b 100644
--- a/packages/vgrammar-core/src/view/group.ts
+++ b/packages/vgrammar-core/src/view/group.ts
@@ -46,13 +46,6 @@ export class GroupMark extends Mark implements IGroupMark {
   }
 
   updateLayoutChildren() {
-    if (!this.children.length) {
-      return this;
-    }
-    if (!this.layoutChildren) {
-      this.layoutChildren = [];
-    }
-
     this.layoutChildren = this.children.filter(child => child.needLayout());
 
     return this;
-- 
2.43.0


From d666487fdb183961c0dcd3bf776edd224863f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 046/111] fix: marks created after the first run take part in
 layout

---
 packages/vgrammar-core/src/view/View.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 8eb9eec..1634461 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -335,6 +335,8 @@ export default class View extends EventEmitter implements IView {
     }
     this.grammars.record(mark);
     this._dataflow.add(mark);
+    // update layout tree after grammar update
+    this._needBuildLayoutTree = true;
     return mark;
   }
 
-- 
2.43.0


From 64a0f6d00c846d61fba5424f786f8f449212e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 047/111] fix: removed grammars are not evaluated before they
 are detached

---
 packages/vgrammar-core/src/view/dataflow.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/dataflow.ts b/packages/vgrammar-core/src/view/dataflow.ts
index 3810a7a..418e691 100644
--- a/packages/vgrammar-core/src/view/dataflow.ts
+++ b/packages/vgrammar-core/src/view/dataflow.ts
@@ -139,7 +139,12 @@ export default class Dataflow implements IDataflow {
 
   private _enqueueTargets(grammar: IGrammarBase) {
     if (grammar.targets && grammar.targets.length && this._finishFirstRender) {
-      grammar.targets.forEach((target: IGrammarBase) => this._enqueue(target));
+      grammar.targets.forEach((target: IGrammarBase) => {
+        // removed grammars are detached later, they should not be evaluated again
+        if (this.grammars.includes(target)) {
+          this._enqueue(target);
+        }
+      });
     }
   }
 
-- 
2.43.0


From 616cd5926bf4837956265e3c8e43fdfd81826c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 048/111] fix: progressive transforms without canAnimate threw
 at the end of a run

---
 packages/vgrammar-core/src/view/mark.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 3386915..e2dc076 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -980,7 +980,7 @@ export class Mark extends GrammarBase implements IMark {
     return (
       this.renderContext &&
       this.renderContext.beforeTransformProgressive &&
-      this.renderContext.beforeTransformProgressive.canAnimate()
+      this.renderContext.beforeTransformProgressive.canAnimate?.()
     );
   }
 
-- 
2.43.0


From 11eaf7cf2fba5dfbf7d0672a94bb6a064beec806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 049/111] fix: elements of progressive collection marks were
 listed once per step

---
 packages/vgrammar-core/src/view/mark.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index e2dc076..98b8e63 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -1142,7 +1142,7 @@ export class Mark extends GrammarBase implements IMark {
       });
 
       this.elements = elements;
-    } else {
+    } else if (!this.isCollectionMark()) {
       this.elements = this.elements.concat(elements);
     }
 
-- 
2.43.0


From 4a12b592cf96a6b5f0e3ece6f2313698dafb6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 050/111] fix: progressive marks lost their elements when other
 grammars changed before they were finished

---
 packages/vgrammar-core/src/view/View.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 1634461..b15ef19 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -854,7 +854,13 @@ export default class View extends EventEmitter implements IView {
       return this;
     }
 
+    // marks whose drawing is interrupted need to be drawn from the beginning again
+    const interruptedMarks =
+      this._progressiveMarks && this._progressiveMarks.some(mark => mark.isDoingProgressive())
+        ? this._progressiveMarks.filter(mark => this.grammars.getAllMarks().includes(mark))
+        : [];
     this.clearProgressive();
+    interruptedMarks.forEach(mark => mark.commit());
 
     // evaluate dataflow
     this._dataflow.evaluate();
-- 
2.43.0


From 097848c45cd82069613bda85dba427d205ac856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 051/111] fix: elements of a finished progressive drawing
 removed new elements with the same keys

---
 packages/vgrammar-core/src/view/mark.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 98b8e63..f04d342 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -796,7 +796,11 @@ export class Mark extends GrammarBase implements IMark {
 
     // Enter elements between dataflow start data and end data should be removed directly.
     enterElements.forEach(element => {
-      this.elementMap.delete(isCollectionMark ? element.groupKey : `${element.groupKey}-${element.key}`);
+      const elementKey = isCollectionMark ? element.groupKey : `${element.groupKey}-${element.key}`;
+      // elements of a previous progressive drawing might share their keys with the new elements
+      if (this.elementMap.get(elementKey) === element) {
+        this.elementMap.delete(elementKey);
+      }
       element.remove();
       element.release();
     });
-- 
2.43.0


From 909fc62607031135c6c28e078a7c91ae6fd602b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 052/111] fix: elements leaving while a progressive transform
 ran stayed drawn

---
 packages/vgrammar-core/src/view/View.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index b15ef19..bc529bd 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -1368,6 +1368,8 @@ export default class View extends EventEmitter implements IView {
     ) {
       this.animate.animate();
     } else if (this._progressiveMarks) {
+      // elements which left while the data was being processed are not rendered any more
+      this._progressiveMarks.forEach(mark => mark.cleanExitElements());
       this._progressiveMarks = null;
     }
   }
-- 
2.43.0


From 0fa89ea0c3556ff3e8498b38b0652b30cab27448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 053/111] fix: sort circle-packing nodes with the given
 nodeSort function

---
 packages/vgrammar-hierarchy/src/circle-packing/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
index 888b78a..61ef00f 100644
--- a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
+++ b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
@@ -126,7 +126,7 @@ export class CirclePackingLayout {
     };
     const { nodeSort, setRadius, padding, includeRoot } = this.options ?? {};
     if (nodeSort !== false) {
-      const sort = (isFunction(nodeSort) ? this.options.nodeKey : CirclePackingLayout.defaultOpionts.nodeSort) as (
+      const sort = (isFunction(nodeSort) ? nodeSort : CirclePackingLayout.defaultOpionts.nodeSort) as (
         a: CirclePackingNodeElement,
         b: CirclePackingNodeElement
       ) => number;
-- 
2.43.0


From b2ea838e6e8e1d03e7b9662ce348f7499610ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 054/111] fix: alternate the directions of a sliceDice treemap
 from its first level on

---
 packages/vgrammar-hierarchy/src/treemap/sliceDice.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts b/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts
index ab82bb3..118b9b0 100644
--- a/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts
+++ b/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts
@@ -15,5 +15,5 @@ import type { TreemapNodeElement } from '../interface';
 import slice from './slice';
 
 export default function (parent: TreemapNodeElement, x0: number, y0: number, x1: number, y1: number) {
-  (parent.depth % 2 === 1 ? slice : dice)(parent, x0, y0, x1, y1);
+  (Math.abs(parent.depth) % 2 === 1 ? slice : dice)(parent, x0, y0, x1, y1);
 }
-- 
2.43.0


From e4444c2287ff8a62e7158a8d53ad582193dd8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 055/111] fix: mirror an inverse sankey within its view box
 when the box does not start at 0

---
 packages/vgrammar-sankey/src/layout.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 16a1fe4..24ab8c1 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -179,7 +179,7 @@ export class SankeyLayout {
 
     if (isVertical(this.options.direction)) {
       if (this.options.inverse) {
-        const viewY1 = this._viewBox.x1;
+        const viewY1 = this._viewBox.x0 + this._viewBox.x1;
         nodes.forEach(node => {
           const { y0, y1, x0, x1 } = node;
 
@@ -219,15 +219,16 @@ export class SankeyLayout {
         });
       }
     } else if (this.options.inverse) {
+      const viewX1 = viewBox.x0 + viewBox.x1;
       nodes.forEach(node => {
         const { x0, x1 } = node;
-        node.x0 = viewBox.x1 - x1;
-        node.x1 = viewBox.x1 - x0;
+        node.x0 = viewX1 - x1;
+        node.x1 = viewX1 - x0;
       });
 
       links.forEach(link => {
-        link.x0 = viewBox.x1 - link.x0;
-        link.x1 = viewBox.x1 - link.x1;
+        link.x0 = viewX1 - link.x0;
+        link.x1 = viewX1 - link.x1;
       });
     }
 
-- 
2.43.0


From 36d07cdebf08b45873a84e3399b56a693cc318d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 056/111] fix: use the widest node of a sankey column when
 nodeWidth is a function

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 24ab8c1..88d777d 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -628,7 +628,7 @@ export class SankeyLayout {
           node.x0 = curLayerX;
           node.x1 = curLayerX + curNodeWidth;
 
-          maxNodeWidth = Math.max(nodeWidth, curNodeWidth);
+          maxNodeWidth = Math.max(maxNodeWidth, curNodeWidth);
 
           const sourceLinks = node.sourceLinks;
 
-- 
2.43.0


From 5212ba330edd7439e49646cbf6484ccd94e8970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 057/111] fix: keep the depth of sankey nodes for which
 setNodeLayer gives no layer

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 88d777d..e05e770 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -115,7 +115,7 @@ export class SankeyLayout {
     this._logger = Logger.getInstance();
     this._alignFunc = isFunction(this.options.setNodeLayer)
       ? (node: SankeyNodeElement) => {
-          return this.options.setNodeLayer(node.datum);
+          return this.options.setNodeLayer(node.datum) ?? node.depth;
         }
       : alignFunctions[this.options.nodeAlign];
   }
-- 
2.43.0


From 5f775f2c3d5834ea91f2191bf3db96c0c38735d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 058/111] fix: sort sankey nodes when setNodeLayer leaves a
 layer empty

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index e05e770..8360b71 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -611,7 +611,7 @@ export class SankeyLayout {
     }
     if (this.options.nodeSortBy) {
       for (let j = 0, colLen = columns.length; j < colLen; j++) {
-        columns[j].sort(this.options.nodeSortBy);
+        columns[j]?.sort(this.options.nodeSortBy);
       }
     }
 
-- 
2.43.0


From e15ecb592d404b6c617b08b751a76e17aa00011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 059/111] fix: position the nodes of a sankey that has a single
 layer

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 8360b71..98f6586 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -575,7 +575,7 @@ export class SankeyLayout {
       if (isNumber(linkWidthOption)) {
         linkWidth = linkWidthOption;
       } else if (isNil(linkWidthOption)) {
-        let stepWidth = (width - nodeWidthOption) / (this._maxDepth - 1);
+        let stepWidth = (width - nodeWidthOption) / Math.max(this._maxDepth - 1, 1);
 
         if (minStepWidth > 0) {
           stepWidth = Math.max(minStepWidth, stepWidth);
-- 
2.43.0


From da5aacb2fafd698cfaf52227738c1f30857f7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 060/111] fix: allow encoders to be added to a mark whose
 parsed spec has none

---
 packages/vgrammar-core/src/view/mark.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index f04d342..1617f9e 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -390,6 +390,11 @@ export class Mark extends GrammarBase implements IMark {
       this._isReentered = true;
     }
 
+    // the spec of a parsed mark may have no encoders
+    if (!this.spec.encode) {
+      this.spec.encode = {};
+    }
+
     if ((this.spec.encode as any)[state]) {
       const lastEncoder = (this.spec.encode as any)[state];
       // detach last dependencies
-- 
2.43.0


From e61f2d9f032a9dc58b062849cec30a7932beb08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 061/111] fix: do not write the shapes of legend items into the
 theme

---
 packages/vgrammar-core/src/component/legend.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index bba1122..2710305 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -47,7 +47,7 @@ export const generateDiscreteLegendAttributes = (
           fill: color,
           stroke: color
         }
-      : legendTheme?.items?.[0]?.shape ?? {};
+      : { ...(legendTheme?.items?.[0]?.shape ?? {}) };
 
     if (shapeScale) {
       Object.assign(shape, { symbolType: shapeScale.scale(item) });
-- 
2.43.0


From fb141d9193ce64125742a94f38f8a6c05fa2366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 062/111] fix: do not share the join key of a component with
 other components

---
 packages/vgrammar-core/src/view/component.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/component.ts b/packages/vgrammar-core/src/view/component.ts
index 36b687b..455dcf0 100644
--- a/packages/vgrammar-core/src/view/component.ts
+++ b/packages/vgrammar-core/src/view/component.ts
@@ -76,9 +76,11 @@ export class Component extends Mark implements IComponent {
     this.spec.key = DefaultKey;
 
     if (data) {
-      (data as any)[DefaultKey] = this._componentDatum[DefaultKey];
+      // the upstream data may be shared with other components
+      const componentDatum: any = data.slice();
+      componentDatum[DefaultKey] = this._componentDatum[DefaultKey];
 
-      this._componentDatum = data;
+      this._componentDatum = componentDatum;
     } else {
       this._componentDatum = { [DefaultKey]: this._componentDatum[DefaultKey] };
     }
-- 
2.43.0


From ebe7fb3a1594719a7539a904602f2bec328d7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 063/111] fix: re-create axes, grids and legends when their
 scale calls for another type

---
 packages/vgrammar-core/src/component/axis.ts   | 12 ++++++++++++
 packages/vgrammar-core/src/component/grid.ts   | 12 ++++++++++++
 packages/vgrammar-core/src/component/legend.ts | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/packages/vgrammar-core/src/component/axis.ts b/packages/vgrammar-core/src/component/axis.ts
index 4143ddc..d23d900 100644
--- a/packages/vgrammar-core/src/component/axis.ts
+++ b/packages/vgrammar-core/src/component/axis.ts
@@ -128,6 +128,7 @@ export class Axis extends ScaleComponent implements IAxis {
   protected declare spec: AxisSpec;
 
   private _axisComponentType: keyof typeof AxisEnum;
+  private _joinedComponentType: keyof typeof AxisEnum;
 
   constructor(view: IView, group?: IGroupMark, mode?: '2d' | '3d') {
     super(view, ComponentEnum.axis, group);
@@ -192,6 +193,17 @@ export class Axis extends ScaleComponent implements IAxis {
     return this._axisComponentType;
   }
 
+  protected evaluateJoin(data: any[]) {
+    // re-create the graphic item when the current state calls for another type of axis
+    this._axisComponentType = null;
+    const componentType = this._getAxisComponentType();
+    if (this._joinedComponentType && this._joinedComponentType !== componentType) {
+      this._prepareRejoin();
+    }
+    this._joinedComponentType = componentType;
+    return super.evaluateJoin(data);
+  }
+
   protected _updateComponentEncoders() {
     const scaleGrammar = isString(this.spec.scale) ? this.view.getScaleById(this.spec.scale) : this.spec.scale;
     const encoders = Object.assign({ update: {} }, this.spec.encode);
diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index f35cf9a..fbf602a 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -73,6 +73,7 @@ export class Grid extends ScaleComponent implements IGrid {
   protected mode?: '2d' | '3d';
 
   private _gridComponentType: keyof typeof GridEnum;
+  private _joinedComponentType: keyof typeof GridEnum;
   private _targetAxis: IAxis;
 
   constructor(view: IView, group?: IGroupMark, mode?: '2d' | '3d') {
@@ -160,6 +161,17 @@ export class Grid extends ScaleComponent implements IGrid {
     return super.addGraphicItem(initialAttributes, groupKey, graphicItem);
   }
 
+  protected evaluateJoin(data: any[]) {
+    // re-create the graphic item when the current state calls for another type of grid
+    this._gridComponentType = null;
+    const componentType = this._getGridComponentType();
+    if (this._joinedComponentType && this._joinedComponentType !== componentType) {
+      this._prepareRejoin();
+    }
+    this._joinedComponentType = componentType;
+    return super.evaluateJoin(data);
+  }
+
   protected _updateComponentEncoders() {
     const encoders = Object.assign({ update: {} }, this.spec.encode);
     const componentEncoders: StateEncodeSpec = Object.keys(encoders).reduce((res, state) => {
diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index 2710305..c7b1317 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -99,6 +99,7 @@ export class Legend extends ScaleComponent implements ILegend {
   protected declare spec: LegendSpec;
 
   private _legendComponentType: keyof typeof LegendEnum;
+  private _joinedComponentType: keyof typeof LegendEnum;
 
   constructor(view: IView, group?: IGroupMark) {
     super(view, ComponentEnum.legend, group);
@@ -163,6 +164,17 @@ export class Legend extends ScaleComponent implements ILegend {
     return super.addGraphicItem(attrs, groupKey, graphicItem);
   }
 
+  protected evaluateJoin(data: any[]) {
+    // re-create the graphic item when the current state calls for another type of legend
+    this._legendComponentType = null;
+    const componentType = this._getLegendComponentType();
+    if (this._joinedComponentType && this._joinedComponentType !== componentType) {
+      this._prepareRejoin();
+    }
+    this._joinedComponentType = componentType;
+    return super.evaluateJoin(data);
+  }
+
   protected _updateComponentEncoders() {
     const scaleGrammar = isString(this.spec.scale) ? this.view.getScaleById(this.spec.scale) : this.spec.scale;
     const shapeScaleGrammar = isString(this.spec.shapeScale)
-- 
2.43.0


From 39aeb423af02957d8e975af1d577d9930cf811de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 064/111] fix: render the changes evaluated by setCurrentTheme
 without rendering in the next run

---
 packages/vgrammar-core/src/view/View.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index bc529bd..784b50a 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -645,6 +645,10 @@ export default class View extends EventEmitter implements IView {
       this.renderer.render(true);
     } else {
       this._dataflow.evaluate();
+      // whatever has been evaluated here still has to be rendered by the next run
+      this.grammars.getAllMarks().forEach(mark => {
+        mark.commit();
+      });
     }
 
     return this;
-- 
2.43.0


From aa75c496012c693d4955285f8d830be7b4e679a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 065/111] fix: apply a shape scale that is given to an existing
 legend

---
 packages/vgrammar-core/src/component/legend.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index c7b1317..baf133f 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -132,6 +132,8 @@ export class Legend extends ScaleComponent implements ILegend {
     this.spec.shapeScale = scaleGrammar;
     this.attach(scaleGrammar);
 
+    this._updateComponentEncoders();
+
     this.commit();
     return this;
   }
-- 
2.43.0


From f3b494ca774921fe4a3910ea4533f010f106bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 066/111] fix: track the tickCount, inside and baseValue of a
 parsed grid

---
 packages/vgrammar-core/src/component/grid.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index fbf602a..861f2eb 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -87,6 +87,9 @@ export class Grid extends ScaleComponent implements IGrid {
     this.target(spec.target);
     this.gridType(spec.gridType);
     this.gridShape(spec.gridShape);
+    this.tickCount(spec.tickCount);
+    this.inside(spec.inside);
+    this.baseValue(spec.baseValue);
     return this;
   }
 
-- 
2.43.0


From ea6626678c26faedde9a25c2c717dc4d9b3d43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 067/111] fix: labels that skip the theme throw

---
 packages/vgrammar-core/src/component/label.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/component/label.ts b/packages/vgrammar-core/src/component/label.ts
index ecd04a2..e5a74ce 100644
--- a/packages/vgrammar-core/src/component/label.ts
+++ b/packages/vgrammar-core/src/component/label.ts
@@ -27,14 +27,14 @@ export const generateLabelAttributes = (
   encoder: BaseSingleEncodeSpec,
   labelStyle: MarkFunctionType<Partial<BaseLabelAttrs>>,
   parameters: any,
-  theme: ITheme = {}
+  theme?: ITheme
 ): DataLabelAttrs => {
-  const labelTheme = theme.components?.dataLabel;
+  const labelTheme = theme?.components?.dataLabel;
   const dataLabels = marks
     .map((mark, index) => {
       const labelParameters = { ...parameters, labelIndex: index };
       const addition = invokeFunctionType(labelStyle, labelParameters, mark) ?? {};
-      const { components = {} } = theme;
+      const { components = {} } = theme ?? {};
       let currentTheme: any = {};
 
       switch (mark.markType) {
-- 
2.43.0


From 0fdaeaa114deb868a8c2d323f71f8b29eba957da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 068/111] fix: a data zoom's preview kept drawing the channels
 it was created with

---
 packages/vgrammar-core/src/component/datazoom.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/datazoom.ts b/packages/vgrammar-core/src/component/datazoom.ts
index 9a0df45..4a032e0 100644
--- a/packages/vgrammar-core/src/component/datazoom.ts
+++ b/packages/vgrammar-core/src/component/datazoom.ts
@@ -176,8 +176,8 @@ export class Datazoom extends Component implements IDatazoom {
     });
 
     // set preview callbacks
-    const { data, x, y, x1, y1 } = this.spec.preview ?? {};
     datazoom.setPreviewPointsX((datum: any) => {
+      const { data, x } = this.spec.preview ?? {};
       if (x && data) {
         return invokeEncoder({ x }, datum, this.elements[0], this.parameters()).x;
       }
@@ -185,6 +185,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsY((datum: any) => {
+      const { data, y } = this.spec.preview ?? {};
       if (y && data) {
         return invokeEncoder({ y }, datum, this.elements[0], this.parameters()).y;
       }
@@ -192,6 +193,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsX1((datum: any) => {
+      const { data, x1 } = this.spec.preview ?? {};
       if (x1 && data) {
         return invokeEncoder({ x1 }, datum, this.elements[0], this.parameters()).x1;
       }
@@ -199,6 +201,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsY1((datum: any) => {
+      const { data, y1 } = this.spec.preview ?? {};
       if (y1 && data) {
         return invokeEncoder({ y1 }, datum, this.elements[0], this.parameters()).y1;
       }
-- 
2.43.0


From a1c0799df7fd68b57020d4f68e5c1187cd658446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 069/111] fix: pass a parsed grid tick count with the type the
 setter takes

---
 packages/vgrammar-core/src/component/grid.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index 861f2eb..70c12b1 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -87,7 +87,7 @@ export class Grid extends ScaleComponent implements IGrid {
     this.target(spec.target);
     this.gridType(spec.gridType);
     this.gridShape(spec.gridShape);
-    this.tickCount(spec.tickCount);
+    this.tickCount(spec.tickCount as SimpleSignalType<number> | Nil);
     this.inside(spec.inside);
     this.baseValue(spec.baseValue);
     return this;
-- 
2.43.0


From 4c646e78327d0662122fc409ac4ad379bd477dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 070/111] fix: removed filter interactions stayed bound and
 kept filtering

---
 .../src/interactions/brush-filter.ts          |  7 ++++++-
 .../src/interactions/drill-down.ts            |  7 ++++++-
 .../vgrammar-core/src/interactions/filter.ts  | 19 +++++++++++++++++--
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-filter.ts b/packages/vgrammar-core/src/interactions/brush-filter.ts
index cb9c36f..63ecc0e 100644
--- a/packages/vgrammar-core/src/interactions/brush-filter.ts
+++ b/packages/vgrammar-core/src/interactions/brush-filter.ts
@@ -6,7 +6,7 @@ import { DataFilterRank } from '../graph/enums';
 import type { FilterMixin } from './filter';
 
 export interface BrushFilter
-  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_removeFilter'>,
     BrushBase<BrushFilterOptions> {}
 
 export class BrushFilter extends BrushBase<BrushFilterOptions> {
@@ -38,6 +38,11 @@ export class BrushFilter extends BrushBase<BrushFilterOptions> {
     return super.getEvents();
   }
 
+  unbind() {
+    super.unbind();
+    this._removeFilter();
+  }
+
   handleBrushUpdate = (event: {
     type: string;
     detail: {
diff --git a/packages/vgrammar-core/src/interactions/drill-down.ts b/packages/vgrammar-core/src/interactions/drill-down.ts
index 7caa0e2..9724b86 100644
--- a/packages/vgrammar-core/src/interactions/drill-down.ts
+++ b/packages/vgrammar-core/src/interactions/drill-down.ts
@@ -6,7 +6,7 @@ import { DataFilterRank } from '../graph/enums';
 import type { FilterMixin } from './filter';
 
 export interface DrillDown
-  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_removeFilter'>,
     BrushBase<DrillDownOptions> {}
 
 export class DrillDown extends BrushBase<DrillDownOptions> {
@@ -49,6 +49,11 @@ export class DrillDown extends BrushBase<DrillDownOptions> {
     ];
   }
 
+  unbind() {
+    super.unbind();
+    this._removeFilter();
+  }
+
   handleBrushUpdate = (event: {
     type: string;
     detail: {
diff --git a/packages/vgrammar-core/src/interactions/filter.ts b/packages/vgrammar-core/src/interactions/filter.ts
index a2c50ba..028b2a6 100644
--- a/packages/vgrammar-core/src/interactions/filter.ts
+++ b/packages/vgrammar-core/src/interactions/filter.ts
@@ -21,7 +21,8 @@ export class FilterMixin {
     transform?: (data: any[], parameters: any) => any[]
   ) {
     const dataGrammar = isString(data) ? this.view.getDataById(data) : data;
-    if (dataGrammar) {
+    // unbinding asks for the events again, it needs the handler and the filter that have been bound
+    if (dataGrammar && !this._dataFilter) {
       this.handleFilter = (event: InteractionEvent) => {
         const element = event?.element;
         if (!dataGrammar || (source && (!element || element.mark !== source))) {
@@ -49,10 +50,20 @@ export class FilterMixin {
     }
     return this;
   }
+
+  _removeFilter() {
+    if (this._data && this._dataFilter) {
+      this._data.removeDataFilter(this._dataFilter);
+      this._data.commit();
+    }
+    this._dataFilter = null;
+    this._filterValue = null;
+    return this;
+  }
 }
 
 export interface Filter
-  extends Pick<FilterMixin, '_data' | '_marks' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<FilterMixin, '_data' | '_marks' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_removeFilter'>,
     BaseInteraction<DataFilterOptions> {}
 
 export abstract class Filter extends BaseInteraction<DataFilterOptions> {
@@ -65,4 +76,8 @@ export abstract class Filter extends BaseInteraction<DataFilterOptions> {
       this._data = isString(options.target.data) ? view.getDataById(options.target.data) : options.target.data;
     }
   }
+  unbind() {
+    super.unbind();
+    this._removeFilter();
+  }
 }
-- 
2.43.0


From 68b3fd0e841c60f8e2af04fab7fcdbbe7a807b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 071/111] fix: rolling up an element again or triggering the
 reset did not take the roll-up back

---
 packages/vgrammar-core/src/interactions/roll-up.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/roll-up.ts b/packages/vgrammar-core/src/interactions/roll-up.ts
index 2c045ce..5cd4ce6 100644
--- a/packages/vgrammar-core/src/interactions/roll-up.ts
+++ b/packages/vgrammar-core/src/interactions/roll-up.ts
@@ -36,12 +36,11 @@ export class RollUp extends Filter {
 
     const transform = this.options.target.transform;
 
-    const getFilterValue = (event: InteractionEvent) => event?.element?.getDatum?.();
     const dataTransform = (data: any[], filterValue: any) => {
       return transform(data, filterValue);
     };
 
-    this._filterData(this._data, null, DataFilterRank.rollUp, getFilterValue, undefined, dataTransform);
+    this._filterData(this._data, null, DataFilterRank.rollUp, null, undefined, dataTransform);
 
     const events = [
       {
@@ -76,11 +75,11 @@ export class RollUp extends Filter {
       const filterValue = event.element?.getDatum?.();
 
       const isEqualFilterValue =
-        filterValue === this._filterData ||
+        filterValue === this._filterValue ||
         (isArray(filterValue) &&
           isArray(this._filterValue) &&
           filterValue.length === this._filterValue.length &&
-          filterValue.every(datum => !this._filterValue.includes(datum)));
+          filterValue.every(datum => this._filterValue.includes(datum)));
 
       if (isEqualFilterValue) {
         // reset filter value when toggle is enabled
@@ -89,6 +88,7 @@ export class RollUp extends Filter {
           this.handleFilter(event);
         }
       } else {
+        this._filterValue = filterValue;
         this.handleFilter(event);
       }
     }
-- 
2.43.0


From f215717664aa6858afd6555e087f5a02db2d69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 072/111] fix: plots with rule marks, with several text marks,
 or with options for a scale no channel uses

---
 packages/vgrammar-plot/src/plot.ts          | 6 +++---
 packages/vgrammar-plot/src/rule.ts          | 2 +-
 packages/vgrammar-plot/src/semantic-mark.ts | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-plot/src/plot.ts b/packages/vgrammar-plot/src/plot.ts
index 5064369..570f192 100644
--- a/packages/vgrammar-plot/src/plot.ts
+++ b/packages/vgrammar-plot/src/plot.ts
@@ -57,8 +57,8 @@ export class Plot implements IPlot {
 
         if (prevIndex >= 0) {
           const prevScale = res[prevIndex];
-          if ((scale.domain as ScaleData).data && (scale.domain as ScaleData).field) {
-            if ((prevScale.domain as ScaleData).data && (prevScale.domain as ScaleData).field) {
+          if ((scale.domain as ScaleData)?.data && (scale.domain as ScaleData).field) {
+            if ((prevScale.domain as ScaleData)?.data && (prevScale.domain as ScaleData).field) {
               if (
                 (scale.domain as ScaleData).data === (prevScale.domain as ScaleData).data &&
                 (scale.domain as ScaleData).field !== (prevScale.domain as ScaleData).field
@@ -78,7 +78,7 @@ export class Plot implements IPlot {
               if (!isNil((scale.domain as ScaleData).sort)) {
                 (prevScale.domain as ScaleData).sort = (scale.domain as ScaleData).sort;
               }
-            } else if ((prevScale.domain as MultiScaleData).datas) {
+            } else if ((prevScale.domain as MultiScaleData)?.datas) {
               const prevData = (prevScale.domain as MultiScaleData).datas.find(
                 entry => entry.data === (scale.domain as ScaleData).data
               );
diff --git a/packages/vgrammar-plot/src/rule.ts b/packages/vgrammar-plot/src/rule.ts
index a86679c..64c4820 100644
--- a/packages/vgrammar-plot/src/rule.ts
+++ b/packages/vgrammar-plot/src/rule.ts
@@ -45,7 +45,7 @@ export class Rule extends SemanticMark<PlotRuleEncoderSpec, RuleEncodeChannels>
   ): GenerateBaseEncodeSpec<PlotRuleEncoderSpec> {
     const markEncoder = this.convertSimpleMarkEncode(encode);
 
-    let res: GenerateEncoderSpec<PlotRuleEncoderSpec>;
+    const res = {} as GenerateEncoderSpec<PlotRuleEncoderSpec>;
 
     if (isArray(markEncoder.x?.field)) {
       res.x = { field: markEncoder.x.field[0], scale: markEncoder.x.scale };
diff --git a/packages/vgrammar-plot/src/semantic-mark.ts b/packages/vgrammar-plot/src/semantic-mark.ts
index edb07ac..8a791b7 100644
--- a/packages/vgrammar-plot/src/semantic-mark.ts
+++ b/packages/vgrammar-plot/src/semantic-mark.ts
@@ -1495,8 +1495,7 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
       Object.keys(scale).forEach(k => {
         const scaleId = this.getScaleId(k);
         if (!scales[scaleId]) {
-          scales[scaleId] = scale[k];
-          scales[scaleId].userScale = scale[k];
+          scales[scaleId] = Object.assign({}, scale[k], { userScale: scale[k] });
         }
       });
     }
-- 
2.43.0


From dc52544984f44f0e04d065358b2e28c602f06183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 073/111] fix: state values of a glyph follow its data

encodeGraphic reset the caches of a plain graphic (states, stateProxy) but a
glyph keeps its evaluated states in glyphStates, so a state encoder kept the
values of the data it was first applied to.
---
 packages/vgrammar-core/src/graph/glyph-element.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index 3d31fb4..2291dae 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -136,8 +136,8 @@ export class GlyphElement extends Element implements IGlyphElement {
     } else {
       this.graphicItem.clearStates();
       // 更新数据流后，states计算不缓存
-      this.graphicItem.states = {};
-      this.graphicItem.stateProxy = null;
+      this.graphicItem.glyphStates = {};
+      this.graphicItem.glyphStateProxy = null;
     }
 
     if (this.diffState === DiffState.enter || isGraphicInit) {
-- 
2.43.0


From 6fe54c22344ebd9a803631d29efdeb2ff6b5ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 074/111] fix: a size given by a glyph's state goes with the
 state

The encoders fell back on the attribute the graphic still had while the state
was being cleared; the values they are given already carry the current
attributes.
---
 packages/vgrammar-core/src/glyph/boxplot.ts | 32 ++++++++++-----------
 packages/vgrammar-core/src/glyph/ripple.ts  |  2 +-
 packages/vgrammar-core/src/glyph/violin.ts  | 14 ++++-----
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index 2fadede..c173c40 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -175,14 +175,14 @@ const encodeBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElement
     median: {}
   };
 
-  const x = encodeValues.x ?? element.getGraphicAttribute('x', false);
-  const y = encodeValues.y ?? element.getGraphicAttribute('y', false);
-  const width = encodeValues.width ?? element.getGraphicAttribute('width', false);
-  const height = encodeValues.height ?? element.getGraphicAttribute('height', false);
-  const boxWidth = encodeValues.boxWidth ?? element.getGraphicAttribute('boxWidth', false);
-  const boxHeight = encodeValues.boxHeight ?? element.getGraphicAttribute('boxHeight', false);
-  const ruleWidth = encodeValues.ruleWidth ?? element.getGraphicAttribute('ruleWidth', false);
-  const ruleHeight = encodeValues.ruleHeight ?? element.getGraphicAttribute('ruleHeight', false);
+  const x = encodeValues.x;
+  const y = encodeValues.y;
+  const width = encodeValues.width;
+  const height = encodeValues.height;
+  const boxWidth = encodeValues.boxWidth;
+  const boxHeight = encodeValues.boxHeight;
+  const ruleWidth = encodeValues.ruleWidth;
+  const ruleHeight = encodeValues.ruleHeight;
 
   if (config && isHorizontal(config.direction)) {
     if (isValidNumber(boxHeight)) {
@@ -394,14 +394,14 @@ const encodeBarBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElem
     median: {}
   };
 
-  const x = encodeValues.x ?? element.getGraphicAttribute('x', false);
-  const y = encodeValues.y ?? element.getGraphicAttribute('y', false);
-  const width = encodeValues.width ?? element.getGraphicAttribute('width', false);
-  const minMaxWidth = encodeValues.minMaxWidth ?? element.getGraphicAttribute('minMaxWidth', false);
-  const q1q3Width = encodeValues.q1q3Width ?? element.getGraphicAttribute('q1q3Width', false);
-  const height = encodeValues.height ?? element.getGraphicAttribute('height', false);
-  const minMaxHeight = encodeValues.minMaxHeight ?? element.getGraphicAttribute('minMaxHeight', false);
-  const q1q3Height = encodeValues.q1q3Height ?? element.getGraphicAttribute('q1q3Height', false);
+  const x = encodeValues.x;
+  const y = encodeValues.y;
+  const width = encodeValues.width;
+  const minMaxWidth = encodeValues.minMaxWidth;
+  const q1q3Width = encodeValues.q1q3Width;
+  const height = encodeValues.height;
+  const minMaxHeight = encodeValues.minMaxHeight;
+  const q1q3Height = encodeValues.q1q3Height;
 
   if (config && isHorizontal(config.direction)) {
     if (isValidNumber(minMaxHeight)) {
diff --git a/packages/vgrammar-core/src/glyph/ripple.ts b/packages/vgrammar-core/src/glyph/ripple.ts
index 9e8ce2e..7bdc7d4 100644
--- a/packages/vgrammar-core/src/glyph/ripple.ts
+++ b/packages/vgrammar-core/src/glyph/ripple.ts
@@ -13,7 +13,7 @@ export const registerRippleGlyph = () => {
     .registerFunctionEncoder((encodeValues: RipplePointEncoderSpec, datum: any, element: IElement, config: any) => {
       // ripple value should be between 0 and 1
       const ripple = Math.max(0, Math.min(encodeValues.ripple, 1));
-      const size = encodeValues.size ?? element.getGraphicAttribute('size');
+      const size = encodeValues.size;
       const rippleSize = size * 0.5;
       return {
         ripple0: { size: size + rippleSize * ripple, fillOpacity: 0.75 - ripple * 0.25 },
diff --git a/packages/vgrammar-core/src/glyph/violin.ts b/packages/vgrammar-core/src/glyph/violin.ts
index e335111..9b97af7 100644
--- a/packages/vgrammar-core/src/glyph/violin.ts
+++ b/packages/vgrammar-core/src/glyph/violin.ts
@@ -59,14 +59,14 @@ const encodeViolin = (encodeValues: any, datum: any, element: IGlyphElement, con
     median: {}
   };
 
-  const x = encodeValues.x ?? element.getGraphicAttribute('x', false);
-  const y = encodeValues.y ?? element.getGraphicAttribute('y', false);
-  const width = encodeValues.width ?? element.getGraphicAttribute('width', false);
-  const height = encodeValues.height ?? element.getGraphicAttribute('height', false);
-  const boxWidth = encodeValues.boxWidth ?? element.getGraphicAttribute('boxWidth', false);
-  const boxHeight = encodeValues.boxHeight ?? element.getGraphicAttribute('boxHeight', false);
+  const x = encodeValues.x;
+  const y = encodeValues.y;
+  const width = encodeValues.width;
+  const height = encodeValues.height;
+  const boxWidth = encodeValues.boxWidth;
+  const boxHeight = encodeValues.boxHeight;
   const densitySize =
-    encodeValues.densitySize ?? element.getGraphicAttribute('densitySize', false) ?? defaultDensitySize;
+    encodeValues.densitySize ?? defaultDensitySize;
 
   const densityScale = element.mark.getScalesByChannel().density;
   const densityField = element.mark.getFieldsByChannel().density;
-- 
2.43.0


From 1be1c900045750d5c78868ec8d31b94823de8fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 075/111] fix: a horizontal bar box plot turns around its own
 middle

---
 packages/vgrammar-core/src/glyph/boxplot.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index c173c40..35b14b6 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -487,7 +487,11 @@ export function registerBarBoxplotGlyph() {
         : { median: { y: encodeValue, y1: encodeValue, visible: true } };
     })
     .registerChannelEncoder('angle', (channel, encodeValue, encodeValues, datum, element, config) => {
-      const anchor = encodeValues.anchor ?? [encodeValues.x, (encodeValues.min + encodeValues.max) / 2];
+      const defaultAnchor =
+        config && isHorizontal(config.direction)
+          ? [(encodeValues.min + encodeValues.max) / 2, encodeValues.y]
+          : [encodeValues.x, (encodeValues.min + encodeValues.max) / 2];
+      const anchor = encodeValues.anchor ?? defaultAnchor;
       return {
         minMaxBox: { angle: encodeValue, anchor },
         q1q3Box: { angle: encodeValue, anchor },
-- 
2.43.0


From 2cfed628ec98f8e229644b901de1d5758b570b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 076/111] fix: a box plot grows from the middle of its box

The centre was read from the width and height of the boxes, which carry x1 and
y1, so without a median it fell back on the size of the glyph.
---
 packages/vgrammar-core/src/glyph/boxplot.ts | 36 +++++++--------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index 35b14b6..5b95595 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -133,19 +133,15 @@ const computeBoxplotCenter = (
     max = glyphElement.getGraphicAttribute('points', false, 'max')?.[0]?.x;
     min = glyphElement.getGraphicAttribute('points', false, 'min')?.[0]?.x;
 
-    const boxWidth = glyphElement.getGraphicAttribute('width', false, 'box');
-    const boxX = glyphElement.getGraphicAttribute('x', false, 'box');
-    q1 = boxX;
-    q3 = boxX + boxWidth;
+    q1 = glyphElement.getGraphicAttribute('x', false, 'box');
+    q3 = glyphElement.getGraphicAttribute('x1', false, 'box');
   } else {
     median = glyphElement.getGraphicAttribute('points', false, 'median')?.[0]?.y;
     max = glyphElement.getGraphicAttribute('points', false, 'max')?.[0]?.y;
     min = glyphElement.getGraphicAttribute('points', false, 'min')?.[0]?.y;
 
-    const boxHeight = glyphElement.getGraphicAttribute('height', false, 'box');
-    const boxY = glyphElement.getGraphicAttribute('y', false, 'box');
-    q1 = boxY;
-    q3 = boxY + boxHeight;
+    q1 = glyphElement.getGraphicAttribute('y', false, 'box');
+    q3 = glyphElement.getGraphicAttribute('y1', false, 'box');
   }
 
   if (isValidNumber(median)) {
@@ -346,27 +342,19 @@ const computeBarBoxplotCenter = (
   if (isHorizontal(direction)) {
     median = glyphElement.getGraphicAttribute('points', false, 'median')?.[0]?.x;
 
-    const minMaxBoxWidth = glyphElement.getGraphicAttribute('width', false, 'minMaxBox');
-    const minMaxBoxBoxX = glyphElement.getGraphicAttribute('x', false, 'minMaxBox');
-    min = minMaxBoxBoxX;
-    max = minMaxBoxBoxX + minMaxBoxWidth;
+    min = glyphElement.getGraphicAttribute('x', false, 'minMaxBox');
+    max = glyphElement.getGraphicAttribute('x1', false, 'minMaxBox');
 
-    const q1q3BoxWidth = glyphElement.getGraphicAttribute('width', false, 'q1q3Box');
-    const q1q3BoxX = glyphElement.getGraphicAttribute('x', false, 'q1q3Box');
-    q1 = q1q3BoxX;
-    q3 = q1q3BoxX + q1q3BoxWidth;
+    q1 = glyphElement.getGraphicAttribute('x', false, 'q1q3Box');
+    q3 = glyphElement.getGraphicAttribute('x1', false, 'q1q3Box');
   } else {
     median = glyphElement.getGraphicAttribute('points', false, 'median')?.[0]?.y;
 
-    const minMaxBoxHeight = glyphElement.getGraphicAttribute('height', false, 'minMaxBox');
-    const minMaxBoxBoxY = glyphElement.getGraphicAttribute('y', false, 'minMaxBox');
-    min = minMaxBoxBoxY;
-    max = minMaxBoxBoxY + minMaxBoxHeight;
+    min = glyphElement.getGraphicAttribute('y', false, 'minMaxBox');
+    max = glyphElement.getGraphicAttribute('y1', false, 'minMaxBox');
 
-    const q1q3BoxHeight = glyphElement.getGraphicAttribute('height', false, 'q1q3Box');
-    const q1q3BoxY = glyphElement.getGraphicAttribute('y', false, 'q1q3Box');
-    q1 = q1q3BoxY;
-    q3 = q1q3BoxY + q1q3BoxHeight;
+    q1 = glyphElement.getGraphicAttribute('y', false, 'q1q3Box');
+    q3 = glyphElement.getGraphicAttribute('y1', false, 'q1q3Box');
   }
 
   if (isValidNumber(median)) {
-- 
2.43.0


From ce824fcd0f63923ff6abc8944a27d05e54fb6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 077/111] fix: attributes given to one glyph's state at runtime
 are not kept for later uses of the state

---
 packages/vgrammar-core/src/graph/glyph-element.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index 2291dae..f5c342c 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -114,10 +114,13 @@ export class GlyphElement extends Element implements IGlyphElement {
 
       glyphStateAttributes.attributes = targetItems[0].nextAttrs;
 
-      if (!this.graphicItem.glyphStates) {
-        this.graphicItem.glyphStates = { [stateName]: glyphStateAttributes };
-      } else if (!this.graphicItem.glyphStates[stateName]) {
-        this.graphicItem.glyphStates[stateName] = glyphStateAttributes;
+      // attributes of runtime states should not be cached
+      if (!isRuntimeState) {
+        if (!this.graphicItem.glyphStates) {
+          this.graphicItem.glyphStates = { [stateName]: glyphStateAttributes };
+        } else if (!this.graphicItem.glyphStates[stateName]) {
+          this.graphicItem.glyphStates[stateName] = glyphStateAttributes;
+        }
       }
 
       return glyphStateAttributes;
-- 
2.43.0


From 17d2967b4dc7105c0fa568dbaa658a5348ffe206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 078/111] fix: the start arrow of a vertical tree path has two
 sides

---
 packages/vgrammar-core/src/glyph/tree-path.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/glyph/tree-path.ts b/packages/vgrammar-core/src/glyph/tree-path.ts
index 9383740..01bd5e4 100644
--- a/packages/vgrammar-core/src/glyph/tree-path.ts
+++ b/packages/vgrammar-core/src/glyph/tree-path.ts
@@ -102,7 +102,7 @@ export const getVerticalPath = (options: TreePathEncoderSpec) => {
         : '';
       const startArrowPath = options.startArrow
         ? `M${formatter(x0 + arrowSize)},${formatter(y0 + sign * arrowSize)}L${x0},${formatter(y0)}L${formatter(
-            x0 + arrowSize
+            x0 - arrowSize
           )},${formatter(y0 + sign * arrowSize)}`
         : '';
 
-- 
2.43.0


From 0c838b70f4c3799be5c47dfcca8926365a6011f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 079/111] fix: a change of some channels of a glyph leaves its
 parts as all of them say

Only the encoders of the changed channels ran, while the changed x and y were
copied to every rule of the glyph: after a state or an animation changed the
position alone, the rules of a box plot started at the position of the glyph.
---
 .../vgrammar-core/src/graph/glyph-element.ts  | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index f5c342c..8fb9318 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -171,27 +171,20 @@ export class GlyphElement extends Element implements IGlyphElement {
     const channelEncoder = this.glyphMeta.getChannelEncoder();
     const functionEncoder = this.glyphMeta.getFunctionEncoder();
 
+    // parts depend on all the channels of the glyph, whichever of them changes
+    const allAttrs: any = Object.assign({}, this.graphicItem?.attribute, nextAttrs);
+
     if (functionEncoder) {
-      customEncodeValues = functionEncoder.call(
-        null,
-        Object.assign({}, this.graphicItem?.attribute, nextAttrs),
-        this.getDatum(),
-        this,
-        this.mark.getGlyphConfig()
-      );
+      customEncodeValues = functionEncoder.call(null, allAttrs, this.getDatum(), this, this.mark.getGlyphConfig());
     }
     if (channelEncoder) {
       // TODO: maybe delete origin encode value?
-      let allAttrs: any;
       Object.keys(channelEncoder).forEach(channel => {
-        if (!isNil(nextAttrs[channel])) {
-          if (!allAttrs) {
-            allAttrs = Object.assign({}, this.graphicItem?.attribute, nextAttrs);
-          }
+        if (!isNil(allAttrs[channel])) {
           const encodeResult = channelEncoder[channel].call(
             null,
             channel,
-            nextAttrs[channel],
+            allAttrs[channel],
             allAttrs,
             this.getDatum(),
             this,
-- 
2.43.0


From c5e66ca7463f205c8ce70b102779664b9750c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 080/111] fix: the median of a violin follows a change of
 direction

---
 packages/vgrammar-core/src/glyph/violin.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/violin.ts b/packages/vgrammar-core/src/glyph/violin.ts
index 9b97af7..0217b7d 100644
--- a/packages/vgrammar-core/src/glyph/violin.ts
+++ b/packages/vgrammar-core/src/glyph/violin.ts
@@ -129,8 +129,8 @@ export const registerViolinGlyph = () => {
     })
     .registerChannelEncoder('median', (channel, encodeValue, encodeValues, datum, element, config) => {
       return config && isHorizontal(config.direction)
-        ? { median: { x: encodeValue, x1: encodeValue, visible: true } }
-        : { median: { y: encodeValue, y1: encodeValue, visible: true } };
+        ? { median: { x: encodeValue, y: encodeValues.y, visible: true } }
+        : { median: { x: encodeValues.x, y: encodeValue, visible: true } };
     })
     .registerChannelEncoder('angle', (channel, encodeValue, encodeValues, datum, element, config) => {
       const defaultAnchor =
-- 
2.43.0


From 0661695ea94f82429b178da65501b1b87953ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 081/111] fix: crosshairs work with themes that say nothing
 about them

---
 .../src/interactions/crosshair.ts              | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 454abf5..a92fb93 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -157,8 +157,8 @@ export const generateRectCrosshairAttributes = (
   const size =
     defaultSize ??
     (type === 'y'
-      ? customRectStyle?.width ?? crosshairTheme.rectStyle.width
-      : customRectStyle?.height ?? crosshairTheme.rectStyle.height);
+      ? customRectStyle?.width ?? crosshairTheme?.rectStyle?.width ?? 10
+      : customRectStyle?.height ?? crosshairTheme?.rectStyle?.height ?? 10);
   const points = computeCrosshairStartEnd(point, scale, type, groupSize, config, scale.type === 'band' ? 0 : -size / 2);
   const rectStyle: Partial<IRectGraphicAttribute> = {};
   if (type === 'x') {
@@ -196,8 +196,8 @@ export const generateRingCrosshairAttributes = (
   const crosshairTheme = theme?.components?.circleCrosshair;
   const { center, radius } = computeRadiusOfTangential(point, scale, type, groupSize, config, addition);
 
-  const startAngle = crosshairTheme.startAngle;
-  const endAngle = crosshairTheme.endAngle;
+  const startAngle = crosshairTheme?.startAngle ?? 0;
+  const endAngle = crosshairTheme?.endAngle ?? Math.PI * 2;
   const deltaRadius = scale.type === 'band' || scale.type === 'point' ? (scale as IBandLikeScale).step() : 0;
 
   return merge(
@@ -221,7 +221,7 @@ export const generateSectorCrosshairAttributes = (
   const radius = addition?.radius ?? config?.radius ?? Math.min(groupSize.width, groupSize.height) / 2;
   const center = (addition?.center ??
     config?.center ?? { x: groupSize.width / 2, y: groupSize.height / 2 }) as IPointLike;
-  const defaultAngle = crosshairTheme.endAngle - crosshairTheme.startAngle;
+  const defaultAngle = (crosshairTheme?.endAngle ?? Math.PI / 6) - (crosshairTheme?.startAngle ?? 0);
   const angle = scale.type === 'band' || scale.type === 'point' ? (scale as IBandLikeScale).step() : defaultAngle;
   let currentAngle = 0;
   if (isDiscrete(scale.type)) {
@@ -248,8 +248,8 @@ export const generateCircleCrosshairAttributes = (
   const crosshairTheme = theme?.components?.circleCrosshair;
   const { center, radius } = computeRadiusOfTangential(point, scale, type, groupSize, config, addition);
 
-  const startAngle = crosshairTheme.startAngle;
-  const endAngle = crosshairTheme.endAngle;
+  const startAngle = crosshairTheme?.startAngle ?? 0;
+  const endAngle = crosshairTheme?.endAngle ?? Math.PI * 2;
 
   return merge({}, crosshairTheme, { center, radius: radius, startAngle, endAngle }, addition ?? {});
 };
@@ -266,8 +266,8 @@ export const generatePolygonCrosshairAttributes = (
   const crosshairTheme = theme?.components?.circleCrosshair;
   const { center, radius } = computeRadiusOfTangential(point, scale, type, groupSize, config, addition);
 
-  const startAngle = crosshairTheme.startAngle;
-  const endAngle = crosshairTheme.endAngle;
+  const startAngle = crosshairTheme?.startAngle ?? 0;
+  const endAngle = crosshairTheme?.endAngle ?? Math.PI * 2;
   return merge({}, crosshairTheme, { center, radius: radius, startAngle, endAngle }, addition ?? {});
 };
 
-- 
2.43.0


From 099750b9117c3c22583a056d4fcb38adc199005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 082/111] fix: a rect crosshair is as wide as its width across
 x, as high as its height across y

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index a92fb93..2ba0ec5 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -156,7 +156,7 @@ export const generateRectCrosshairAttributes = (
   const customRectStyle = addition?.rectStyle;
   const size =
     defaultSize ??
-    (type === 'y'
+    (type === 'x'
       ? customRectStyle?.width ?? crosshairTheme?.rectStyle?.width ?? 10
       : customRectStyle?.height ?? crosshairTheme?.rectStyle?.height ?? 10);
   const points = computeCrosshairStartEnd(point, scale, type, groupSize, config, scale.type === 'band' ? 0 : -size / 2);
-- 
2.43.0


From 7916f796921a13a5945bf5f13e50262b6147150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 083/111] fix: a rect crosshair lies around the middle of the
 band

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 2ba0ec5..1175674 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -159,7 +159,8 @@ export const generateRectCrosshairAttributes = (
     (type === 'x'
       ? customRectStyle?.width ?? crosshairTheme?.rectStyle?.width ?? 10
       : customRectStyle?.height ?? crosshairTheme?.rectStyle?.height ?? 10);
-  const points = computeCrosshairStartEnd(point, scale, type, groupSize, config, scale.type === 'band' ? 0 : -size / 2);
+  const bandSize = scale.type === 'band' ? (scale as IBandLikeScale).bandwidth() : 0;
+  const points = computeCrosshairStartEnd(point, scale, type, groupSize, config, (bandSize - size) / 2);
   const rectStyle: Partial<IRectGraphicAttribute> = {};
   if (type === 'x') {
     rectStyle.width = size;
-- 
2.43.0


From bdbc3a44e5b2d12f827793b366d507f04c240d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 084/111] fix: a circle crosshair is drawn inside its container

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 1175674..2c925a6 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -369,6 +369,8 @@ export class Crosshair extends BaseInteraction<CrosshairOptions> {
     if (this.getCrosshairComponentType() !== CrosshairEnum.circleCrosshair) {
       attributes.x = containerPoint.x;
       attributes.y = containerPoint.y;
+    } else {
+      attributes.center = { x: attributes.center.x + containerPoint.x, y: attributes.center.y + containerPoint.y };
     }
     this._crosshairComponent.showAll();
     this._crosshairComponent.setAttributes(attributes);
-- 
2.43.0


From 3131a24a6413300db3fd5b8c45171119eb003b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 085/111] fix: polygon crosshairs follow their theme

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 2c925a6..8c4fb62 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -264,7 +264,7 @@ export const generatePolygonCrosshairAttributes = (
   theme?: ITheme,
   addition?: RecursivePartial<PolygonCrosshairAttrs>
 ): PolygonCrosshairAttrs => {
-  const crosshairTheme = theme?.components?.circleCrosshair;
+  const crosshairTheme = theme?.components?.polygonCrosshair;
   const { center, radius } = computeRadiusOfTangential(point, scale, type, groupSize, config, addition);
 
   const startAngle = crosshairTheme?.startAngle ?? 0;
-- 
2.43.0


From eb89952166ed2990249ff12e29779390a6a2892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 086/111] fix: the first dimension tooltip is filled even if no
 data answer

---
 .../vgrammar-core/src/interactions/dimension-tooltip.ts    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 7ca63e8..890ca8c 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -68,6 +68,11 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
     this._container = (view.getMarksBySelector(this.options.container)?.[0] as IGroupMark) ?? view.rootMark;
   }
 
+  bind(): void {
+    this._lastDatum = null;
+    super.bind();
+  }
+
   protected getEvents() {
     const filter = this.options.target.filter;
 
@@ -127,7 +132,7 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
       : [];
 
     this._tooltipComponent.showAll();
-    if (isEqualTooltipDatum(tooltipDatum, this._lastDatum)) {
+    if (this._lastDatum && isEqualTooltipDatum(tooltipDatum, this._lastDatum)) {
       // only update pointer when element is not changed
       this._tooltipComponent.setAttributes({ pointerX: point.x, pointerY: point.y } as any);
       return;
-- 
2.43.0


From 8ec48ddd1d092da7bb6cc7b19ba2746028da1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 087/111] fix: dimension tooltips follow the pointer in
 containers that are not at the origin

---
 .../src/interactions/dimension-tooltip.ts           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 890ca8c..6fefb48 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -131,19 +131,24 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
       ? data.filter(datum => this._tooltipDataFilter(datum, filterValue))
       : [];
 
+    // the tooltip is placed in the view, not in the container
+    const rootGraphicItem = this.view.rootMark.getGroupGraphicItem();
+    const tooltipPoint = { x: 0, y: 0 };
+    rootGraphicItem.globalTransMatrix.transformPoint(event.canvas, tooltipPoint);
+
     this._tooltipComponent.showAll();
     if (this._lastDatum && isEqualTooltipDatum(tooltipDatum, this._lastDatum)) {
       // only update pointer when element is not changed
-      this._tooltipComponent.setAttributes({ pointerX: point.x, pointerY: point.y } as any);
+      this._tooltipComponent.setAttributes({ pointerX: tooltipPoint.x, pointerY: tooltipPoint.y } as any);
       return;
     }
     this._lastDatum = tooltipDatum;
 
     // compute tooltip bounds
     const boundsStart = { x: 0, y: 0 };
-    groupGraphicItem.globalTransMatrix.transformPoint({ x: 0, y: 0 }, boundsStart);
+    rootGraphicItem.globalTransMatrix.transformPoint({ x: 0, y: 0 }, boundsStart);
     const boundsEnd = { x: 0, y: 0 };
-    groupGraphicItem.globalTransMatrix.transformPoint(
+    rootGraphicItem.globalTransMatrix.transformPoint(
       {
         x: this.view.getSignalById('width').getValue() as number,
         y: this.view.getSignalById('height').getValue() as number
@@ -154,7 +159,7 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
     const { title, content } = this._computeTitleContent(tooltipDatum);
     const theme = this.view.getCurrentTheme();
     const addition = invokeFunctionType(this.options.attributes, this.parameters(), {}) as any;
-    const attributes = generateTooltipAttributes(point, title, content, bounds, theme, addition);
+    const attributes = generateTooltipAttributes(tooltipPoint, title, content, bounds, theme, addition);
     this._tooltipComponent.setAttributes(attributes);
   }, 10);
 
-- 
2.43.0


From af937a4a6b5320e1666a43cd404800c283a50261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 088/111] fix: a tooltip that is triggered off does not come
 back late

---
 .../src/interactions/base-tooltip.ts              |  1 +
 .../src/interactions/dimension-tooltip.ts         | 11 +++++++++--
 .../vgrammar-core/src/interactions/tooltip.ts     | 15 +++++++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/base-tooltip.ts b/packages/vgrammar-core/src/interactions/base-tooltip.ts
index 5a01f7b..c4fa2ae 100644
--- a/packages/vgrammar-core/src/interactions/base-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/base-tooltip.ts
@@ -39,6 +39,7 @@ export abstract class BaseTooltip<T extends TooltipOptions> extends BaseInteract
   options: T;
   protected _tooltipComponent?: TooltipComponent;
   protected _marks?: IMark[];
+  protected _isTriggered: boolean = false;
 
   constructor(view: IView, options?: T) {
     super(view, options);
diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 6fefb48..5733275 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -86,8 +86,14 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
     ];
   }
 
-  protected handleTooltipShow = throttle((event: any) => {
-    if (!this._tooltipComponent) {
+  protected handleTooltipShow = (event: any) => {
+    this._isTriggered = true;
+    this._showTooltip(event);
+  };
+
+  protected _showTooltip = throttle((event: any) => {
+    // the call may come late, after the tooltip has been triggered off
+    if (!this._tooltipComponent || !this._isTriggered) {
       return;
     }
 
@@ -164,6 +170,7 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
   }, 10);
 
   protected handleTooltipHide = (event: any) => {
+    this._isTriggered = false;
     if (this._tooltipComponent) {
       this._tooltipComponent.hideAll();
     }
diff --git a/packages/vgrammar-core/src/interactions/tooltip.ts b/packages/vgrammar-core/src/interactions/tooltip.ts
index be64c0b..47f7077 100644
--- a/packages/vgrammar-core/src/interactions/tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/tooltip.ts
@@ -1,5 +1,5 @@
 import { AABBBounds, throttle } from '@visactor/vutils';
-import type { IElement, IView, InteractionEvent, InteractionEventHandler, TooltipOptions } from '../types';
+import type { IElement, IView, InteractionEvent, TooltipOptions } from '../types';
 import { BaseTooltip, generateTooltipAttributes } from './base-tooltip';
 import { invokeFunctionType } from '../parse/util';
 
@@ -25,8 +25,14 @@ export class Tooltip extends BaseTooltip<TooltipOptions> {
     ];
   }
 
-  protected handleTooltipShow = throttle((event: InteractionEvent) => {
-    if (!this._tooltipComponent) {
+  protected handleTooltipShow = (event: InteractionEvent) => {
+    this._isTriggered = true;
+    this._showTooltip(event);
+  };
+
+  protected _showTooltip = throttle((event: InteractionEvent) => {
+    // the call may come late, after the tooltip has been triggered off
+    if (!this._tooltipComponent || !this._isTriggered) {
       return;
     }
 
@@ -65,9 +71,10 @@ export class Tooltip extends BaseTooltip<TooltipOptions> {
     const addition = invokeFunctionType(this.options.attributes, this.parameters(), element.getDatum()) as any;
     const attributes = generateTooltipAttributes(point, title, content, bounds, theme, addition);
     this._tooltipComponent.setAttributes(attributes);
-  }, 10) as unknown as InteractionEventHandler;
+  }, 10) as unknown as (event: InteractionEvent) => void;
 
   protected handleTooltipHide = (event: any) => {
+    this._isTriggered = false;
     if (this._tooltipComponent) {
       this._tooltipComponent.hideAll();
     }
-- 
2.43.0


From 1417319772902c76755e40d35c951cd9810b8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 089/111] fix: the title of a tooltip says nothing about the
 last datum

---
 packages/vgrammar-core/src/interactions/base-tooltip.ts     | 6 ++++++
 .../vgrammar-core/src/interactions/dimension-tooltip.ts     | 2 +-
 packages/vgrammar-core/src/interactions/tooltip.ts          | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/base-tooltip.ts b/packages/vgrammar-core/src/interactions/base-tooltip.ts
index c4fa2ae..bc2485e 100644
--- a/packages/vgrammar-core/src/interactions/base-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/base-tooltip.ts
@@ -69,6 +69,12 @@ export abstract class BaseTooltip<T extends TooltipOptions> extends BaseInteract
     }
   }
 
+  protected _setTooltipAttributes(attributes: TooltipAttributes) {
+    // the component merges plain objects, parts of the last title should not be left
+    this._tooltipComponent.attribute.title = undefined;
+    this._tooltipComponent.setAttributes(attributes);
+  }
+
   protected _computeTooltipRow(row: ITooltipRow, datum: any) {
     // compute visible
     let visible = invokeFunctionType(row.visible, this.parameters(), datum);
diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 5733275..dec24ad 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -166,7 +166,7 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
     const theme = this.view.getCurrentTheme();
     const addition = invokeFunctionType(this.options.attributes, this.parameters(), {}) as any;
     const attributes = generateTooltipAttributes(tooltipPoint, title, content, bounds, theme, addition);
-    this._tooltipComponent.setAttributes(attributes);
+    this._setTooltipAttributes(attributes);
   }, 10);
 
   protected handleTooltipHide = (event: any) => {
diff --git a/packages/vgrammar-core/src/interactions/tooltip.ts b/packages/vgrammar-core/src/interactions/tooltip.ts
index 47f7077..a7aa70a 100644
--- a/packages/vgrammar-core/src/interactions/tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/tooltip.ts
@@ -70,7 +70,7 @@ export class Tooltip extends BaseTooltip<TooltipOptions> {
     const theme = this.view.getCurrentTheme();
     const addition = invokeFunctionType(this.options.attributes, this.parameters(), element.getDatum()) as any;
     const attributes = generateTooltipAttributes(point, title, content, bounds, theme, addition);
-    this._tooltipComponent.setAttributes(attributes);
+    this._setTooltipAttributes(attributes);
   }, 10) as unknown as (event: InteractionEvent) => void;
 
   protected handleTooltipHide = (event: any) => {
-- 
2.43.0


From 5addb7b9969999c8c6baa26c991eaaa598db610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 090/111] fix: jitterX and jitterY pass their elements on to
 the next transform

---
 packages/vgrammar-core/src/transforms/mark/jitter.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/transforms/mark/jitter.ts b/packages/vgrammar-core/src/transforms/mark/jitter.ts
index d8b485d..aafa8b2 100644
--- a/packages/vgrammar-core/src/transforms/mark/jitter.ts
+++ b/packages/vgrammar-core/src/transforms/mark/jitter.ts
@@ -30,6 +30,8 @@ const jitterByChannel = (options: JitterTransformOptions, upstreamData: IElement
       element.setItemAttributes({ [channel]: domain[0] + (domain[1] - domain[0]) * random(index, length) });
     });
   }
+
+  return upstreamData;
 };
 
 /**
-- 
2.43.0


From dac9534bded6080b6a0243ddd4afdf4568b5706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 091/111] fix: two-dimensional mark overlap compares with the
 place of the last shown element

---
 packages/vgrammar-core/src/transforms/mark/mark-overlap.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
index 98f9400..e3665d5 100644
--- a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
+++ b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
@@ -80,7 +80,7 @@ function overlapY(elements: IElement[], delta: number, deltaMul: number, useRadi
 
 function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRadius: boolean) {
   if (useRadius) {
-    const lastX = -Infinity;
+    let lastX = -Infinity;
     let lastY = -Infinity;
     let lastR = 0;
     let dis = 0;
@@ -107,6 +107,7 @@ function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRad
           element.setGraphicAttribute('visible', false);
         }
       } else {
+        lastX = currentX;
         lastY = currentY;
       }
 
-- 
2.43.0


From 2a34c89a16d6f00fd1217f4e64d00a26389f4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 092/111] fix: mark overlap measures from the radius of the
 last shown element

---
 .../vgrammar-core/src/transforms/mark/mark-overlap.ts    | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
index e3665d5..75adf6a 100644
--- a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
+++ b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
@@ -39,9 +39,8 @@ function overlapX(elements: IElement[], delta: number, deltaMul: number, useRadi
         }
       } else {
         lastX = currentX;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
@@ -71,9 +70,8 @@ function overlapY(elements: IElement[], delta: number, deltaMul: number, useRadi
         }
       } else {
         lastY = currentY;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
@@ -109,9 +107,8 @@ function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRad
       } else {
         lastX = currentX;
         lastY = currentY;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
-- 
2.43.0


From a43d2e8325501880cfb5c91038dea0a91b50dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 093/111] fix: removing a brush interaction releases its events
 instead of throwing

---
 packages/vgrammar-core/src/interactions/brush-base.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-base.ts b/packages/vgrammar-core/src/interactions/brush-base.ts
index 6f7191b..1500dc2 100644
--- a/packages/vgrammar-core/src/interactions/brush-base.ts
+++ b/packages/vgrammar-core/src/interactions/brush-base.ts
@@ -186,8 +186,9 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     const stage = this.view.renderer.stage();
 
     if (this._brushComp && stage) {
-      stage.defaultLayer.removeChild(this._brushComp as any);
+      // events are bound on the stage, which is not available any more once the component is removed
       this._brushComp.releaseBrushEvents();
+      stage.defaultLayer.removeChild(this._brushComp as any);
       this._brushComp.release();
       this._brushComp = null;
     }
-- 
2.43.0


From 574ea28384900727a228f83e99442defb34b0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 094/111] fix: brushes cover rects which are given by two
 corners

---
 .../src/interactions/brush-base.ts            | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-base.ts b/packages/vgrammar-core/src/interactions/brush-base.ts
index 1500dc2..6fa8596 100644
--- a/packages/vgrammar-core/src/interactions/brush-base.ts
+++ b/packages/vgrammar-core/src/interactions/brush-base.ts
@@ -6,11 +6,22 @@ import {
   polygonContainPoint,
   type IBounds,
   type IPointLike,
+  isNil,
   polygonIntersectPolygon,
   isRectIntersect
 } from '@visactor/vutils';
 import { HOOK_EVENT } from '../graph/enums';
 
+// the size of a rect may be given by width and height, or by the opposite corner
+const getRectSize = (graphicItem: IGraphic) => {
+  const { x = 0, y = 0, x1, y1, width, height } = graphicItem.attribute as IRectGraphicAttribute;
+
+  return {
+    width: width ?? (isNil(x1) ? 0 : x1 - x),
+    height: height ?? (isNil(y1) ? 0 : y1 - y)
+  };
+};
+
 export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<T> {
   options: T;
   protected _brushComp?: Brush;
@@ -65,7 +76,7 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     if (graphicItem.type === 'symbol' || graphicItem.type === 'circle') {
       return globalAABBBoundsOffset.contains(x, y) && polygonContainPoint(pointsCoord, x, y);
     } else if (graphicItem.type === 'rect') {
-      const { width = 0, height = 0 } = graphicItem?.attribute as IRectGraphicAttribute;
+      const { width, height } = getRectSize(graphicItem);
       const pointsRect = [
         {
           x: x,
@@ -113,8 +124,17 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     if (graphicItem.type === 'symbol' || graphicItem.type === 'circle') {
       return globalAABBBoundsOffset.contains(x, y);
     } else if (graphicItem.type === 'rect') {
-      const { width = 0, height = 0 } = graphicItem.attribute as IRectGraphicAttribute;
-      return isRectIntersect(globalAABBBoundsOffset, { x1: x, y1: y, x2: x + width, y2: y + height }, false);
+      const { width, height } = getRectSize(graphicItem);
+      return isRectIntersect(
+        globalAABBBoundsOffset,
+        {
+          x1: Math.min(x, x + width),
+          y1: Math.min(y, y + height),
+          x2: Math.max(x, x + width),
+          y2: Math.max(y, y + height)
+        },
+        false
+      );
     }
     return brushMask.globalAABBBounds.intersects(graphicItem.globalAABBBounds);
   }
-- 
2.43.0


From 707f4f0394cee85fc55ede80300799c7ded2a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 095/111] fix: clearing the brush of a brush-filter shows all
 rows again

---
 .../src/interactions/brush-filter.ts              | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-filter.ts b/packages/vgrammar-core/src/interactions/brush-filter.ts
index 63ecc0e..e2b0b84 100644
--- a/packages/vgrammar-core/src/interactions/brush-filter.ts
+++ b/packages/vgrammar-core/src/interactions/brush-filter.ts
@@ -2,6 +2,7 @@ import type { IPolygon } from '@visactor/vrender-core';
 import type { BrushFilterOptions, IElement, IGlyphElement, IView } from '../types';
 import { BrushBase } from './brush-base';
 import { isString, type IBounds, array } from '@visactor/vutils';
+import { IOperateType } from '@visactor/vrender-components';
 import { DataFilterRank } from '../graph/enums';
 import type { FilterMixin } from './filter';
 
@@ -56,7 +57,9 @@ export class BrushFilter extends BrushBase<BrushFilterOptions> {
 
     this._marks.forEach(mark => {
       mark.elements.forEach(el => {
-        const isActive = this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
+        const isActive =
+          event.type !== IOperateType.brushClear &&
+          this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
 
         if (isActive) {
           elements.push(el);
@@ -69,8 +72,14 @@ export class BrushFilter extends BrushBase<BrushFilterOptions> {
       // remove repeated datum
       filterValue = Array.from(new Set(filterValue));
 
-      // shallow compare
-      if (
+      if (event.type === IOperateType.brushClear) {
+        // without a brush nothing is filtered
+        if (this._filterValue) {
+          this._filterValue = null;
+          this.handleFilter();
+        }
+      } else if (
+        // shallow compare
         !this._filterValue ||
         filterValue.length !== this._filterValue.length ||
         filterValue.some(datum => !this._filterValue.includes(datum))
-- 
2.43.0


From 3e757b40c726dc2d148be51a49e692c8d0f95fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 096/111] fix: a brush that is dropped leaves no active
 elements

---
 packages/vgrammar-core/src/interactions/brush-active.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-active.ts b/packages/vgrammar-core/src/interactions/brush-active.ts
index f385b77..fefeb21 100644
--- a/packages/vgrammar-core/src/interactions/brush-active.ts
+++ b/packages/vgrammar-core/src/interactions/brush-active.ts
@@ -1,4 +1,5 @@
 import type { IPolygon } from '@visactor/vrender-core';
+import { IOperateType } from '@visactor/vrender-components';
 import { InteractionStateEnum } from '../graph/enums';
 import type { BrushActiveOptions, IElement, IGlyphElement, IView } from '../types';
 import { BrushBase } from './brush-base';
@@ -31,7 +32,10 @@ export class BrushActive extends BrushBase<BrushActiveOptions> {
 
     this._marks.forEach(mark => {
       mark.elements.forEach(el => {
-        const isActive = this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
+        // the mask is still given when a brush is dropped for being too small
+        const isActive =
+          event.type !== IOperateType.brushClear &&
+          this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
 
         if (isActive) {
           elements.push(el);
-- 
2.43.0


From 522120e09b32ad702413b51d05abbfa12831a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 097/111] fix: view-zoom and view-drag pass on whether they are
 realtime, without which they moved nothing

---
 packages/vgrammar-core/src/interactions/view-drag.ts | 6 +++---
 packages/vgrammar-core/src/interactions/view-zoom.ts | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-drag.ts b/packages/vgrammar-core/src/interactions/view-drag.ts
index 16465cc..d1251ff 100644
--- a/packages/vgrammar-core/src/interactions/view-drag.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag.ts
@@ -47,7 +47,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       this._initGrammars();
     }
 
-    this.updateView('start', this.handleDragStart(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('start', this.handleDragStart(e, this._state, this.options), 'drag', e);
   };
 
   handleUpdateInner = (e: InteractionEvent) => {
@@ -55,7 +55,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       return;
     }
 
-    this.updateView('update', this.handleDragUpdate(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('update', this.handleDragUpdate(e, this._state, this.options), 'drag', e);
   };
 
   handleEnd = (e: InteractionEvent) => {
@@ -63,7 +63,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       return;
     }
 
-    this.updateView('end', this.handleDragEnd(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('end', this.handleDragEnd(e, this._state, this.options), 'drag', e);
 
     this._isStarted = false;
   };
diff --git a/packages/vgrammar-core/src/interactions/view-zoom.ts b/packages/vgrammar-core/src/interactions/view-zoom.ts
index 9a22a19..486a027 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom.ts
@@ -58,6 +58,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
     this.updateView(
       'start',
       (this as unknown as IViewZoomMixin).handleZoomStart(e, this._state, {
+        realtime: this.options.realtime,
         rate: this.options.rate,
         focus: this.options.focus
       }),
@@ -79,6 +80,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
     this.updateView(
       'end',
       (this as unknown as IViewZoomMixin).handleZoomEnd(e, this._state, {
+        realtime: this.options.realtime,
         rate: this.options.rate,
         focus: this.options.focus
       }),
@@ -98,6 +100,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
     this.updateView(
       'reset',
       (this as unknown as IViewZoomMixin).handleZoomReset(e, this._state, {
+        realtime: this.options.realtime,
         rate: this.options.rate,
         focus: this.options.focus
       }),
-- 
2.43.0


From 5c3df7c9c4bc8bbf4f50a4495c94d1935e59f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 098/111] fix: scrolling that is not realtime moves the view at
 its end

---
 packages/vgrammar-core/src/interactions/view-scroll-mixin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts b/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
index 68b48b1..f313176 100644
--- a/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
@@ -79,7 +79,7 @@ export class ViewScrollMixin implements IViewScrollMixin {
   ): ViewNavigationRange {
     // do nothing now
 
-    if (scrollOptions?.realtime === false && (isNil(this._scrollX) || isNil(this._scrollY))) {
+    if (scrollOptions?.realtime === false && (!isNil(this._scrollX) || !isNil(this._scrollY))) {
       const res = handleScrolling({ x: this._scrollX, y: this._scrollY }, navState, scrollOptions);
       this._scrollX = null;
       this._scrollY = null;
-- 
2.43.0


From 6f2201c2144830aedd6ad0bb13aa04130229090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 099/111] fix: a realtime drag moves the view by the pointer's
 way, not by the sum of its offsets

---
 packages/vgrammar-core/src/interactions/view-drag-mixin.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
index 40e2cba..d0e1684 100644
--- a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
@@ -58,6 +58,8 @@ export class ViewDragMixin implements IViewDragMixin {
     if (dragOptions?.realtime) {
       const x = e.canvasX - this._dragStart.x;
       const y = e.canvasY - this._dragStart.y;
+      // the view has followed up to here, the next update only adds to it
+      this._dragStart = { x: e.canvasX, y: e.canvasY };
       return handleScrolling({ x, y }, navState, dragOptions);
     }
 
-- 
2.43.0


From d82f7f1c1952202f806bac07005d1441b907bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 100/111] fix: a second pointer does not take over a drag of
 the view

---
 packages/vgrammar-core/src/interactions/view-drag-mixin.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
index d0e1684..69c6d1e 100644
--- a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
@@ -16,10 +16,11 @@ export class ViewDragMixin implements IViewDragMixin {
 
   protected _shouldTriggerDragByPointer(e: InteractionEvent) {
     if (!isNil((e as any).pointerId)) {
-      const shouldStart = isNil(this._pointerId) || this._pointerId === (e as any).pointerId;
-      this._pointerId = (e as any).pointerId;
+      if (isNil(this._pointerId)) {
+        this._pointerId = (e as any).pointerId;
+      }
 
-      return shouldStart;
+      return this._pointerId === (e as any).pointerId;
     }
 
     return true;
-- 
2.43.0


From effbf160df4e999d35c4745b841b48d96b47561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 101/111] fix: a roamed view can be reset after the pointer is
 up, and its scroll ends once

---
 packages/vgrammar-core/src/interactions/view-roam.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-roam.ts b/packages/vgrammar-core/src/interactions/view-roam.ts
index 97b43e8..97d1771 100644
--- a/packages/vgrammar-core/src/interactions/view-roam.ts
+++ b/packages/vgrammar-core/src/interactions/view-roam.ts
@@ -127,7 +127,6 @@ export class ViewRoam extends ViewNavigationBase<ViewRoamOptions> {
     }
 
     this.updateView('end', this.handleZoomEnd(e, this._state, this.options.zoom), 'zoom', e);
-    this._isZoomStarted = false;
   };
 
   handleRoamZoomReset = (e: InteractionEvent) => {
@@ -192,6 +191,6 @@ export class ViewRoam extends ViewNavigationBase<ViewRoamOptions> {
     }
 
     this.updateView('end', this.handleScrollEnd(e, this._state, this.options.scroll), 'scroll', e);
-    this._isScrollStarted = true;
+    this._isScrollStarted = false;
   };
 }
-- 
2.43.0


From 5bbfbdc3b53e43557fddf45ae4fd920b060460be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 102/111] fix: views can be zoomed, dragged and scrolled after
 they were reset

---
 packages/vgrammar-core/src/interactions/view-utils.ts      | 3 ++-
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-utils.ts b/packages/vgrammar-core/src/interactions/view-utils.ts
index 71908e4..f70b511 100644
--- a/packages/vgrammar-core/src/interactions/view-utils.ts
+++ b/packages/vgrammar-core/src/interactions/view-utils.ts
@@ -39,7 +39,7 @@ export const getFilteredValuesFromScale = (scale: IBaseScale, range: [number, nu
 };
 
 export const updateScrollRange = (
-  rangeFactor: [number, number] = [0, 1],
+  curRange: [number, number] | null,
   range: [number, number],
   scrollValue: number = 0,
   scrollOptions?: { reversed?: boolean }
@@ -47,6 +47,7 @@ export const updateScrollRange = (
   if (Math.abs(scrollValue) < 1e-3) {
     return;
   }
+  const rangeFactor = curRange ?? [0, 1];
   const rangeDelta = Math.abs(rangeFactor[1] - rangeFactor[0]);
 
   if (rangeDelta >= 1) {
diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 848a7b3..78d05b1 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -71,12 +71,13 @@ export class ViewZoomMixin implements IViewZoomMixin {
   }
 
   updateZoomRange(
-    rangeFactor: [number, number] = [0, 1],
+    curRange: [number, number] | null,
     range: [number, number],
     zoomEvent: { zoomDelta: number; zoomX: number; zoomY: number },
     zoomOptions?: { rate?: number; focus?: boolean }
   ) {
     const { zoomDelta } = zoomEvent;
+    const rangeFactor = curRange ?? [0, 1];
 
     const rangeDelta = Math.abs(rangeFactor[1] - rangeFactor[0]);
 
-- 
2.43.0


From 2ae8ffea6540fd89034928c615196bea868d42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 103/111] fix: navigation without a scale goes on from the
 range it last told

---
 packages/vgrammar-core/src/interactions/view-utils.ts      | 3 +++
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-utils.ts b/packages/vgrammar-core/src/interactions/view-utils.ts
index f70b511..3575f7c 100644
--- a/packages/vgrammar-core/src/interactions/view-utils.ts
+++ b/packages/vgrammar-core/src/interactions/view-utils.ts
@@ -115,6 +115,9 @@ export const handleScrolling = (
       const oldRange = (getCurrentRange ? getCurrentRange() : rangeFactor) || [0, 1];
       const newRange = updateScrollRange(oldRange, [0, 1], scrollPos[dim], scrollOptions);
 
+      if (!getCurrentRange) {
+        navState[dim].rangeFactor = newRange || oldRange;
+      }
       res[dim] = newRange || oldRange;
     }
   });
diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 78d05b1..9708e26 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -132,6 +132,9 @@ export class ViewZoomMixin implements IViewZoomMixin {
         const oldRange = (getCurrentRange ? getCurrentRange() : rangeFactor) || [0, 1];
         const newRange = this.updateZoomRange(oldRange, null, zoomPos, zoomOptions);
 
+        if (!getCurrentRange) {
+          navState[dim].rangeFactor = newRange || oldRange;
+        }
         res[dim] = newRange || oldRange;
       }
     });
-- 
2.43.0


From 3262e2c39ab290d7ddb008abed9d3cc0b8fc7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 104/111] fix: resetting a zoom without a scale tells the whole
 range

---
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 9708e26..1211158 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -219,8 +219,8 @@ export class ViewZoomMixin implements IViewZoomMixin {
         res.needUpdate = true;
         res[dim] = newRange;
       } else {
-        navState[dim].rangeFactor = navState[dim].initRangeFactor;
-        res[dim] = navState[dim].initRangeFactor;
+        navState[dim].rangeFactor = navState[dim].initRangeFactor ?? newRange;
+        res[dim] = navState[dim].rangeFactor;
       }
     });
     return res;
-- 
2.43.0


From 7b76e83c441e117fb03c659b74c2daf249ec1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 105/111] fix: a reset gives up the zoom that waits for its end

---
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 1211158..6327d1f 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -195,6 +195,9 @@ export class ViewZoomMixin implements IViewZoomMixin {
     zoomOptions?: ViewZoomSimpleOptions
   ): ViewNavigationRange {
     const res: ViewNavigationRange = { needUpdate: false };
+    // a zoom that waits for its end is given up
+    this._zoomPos = null;
+
     if (!navState) {
       return res;
     }
-- 
2.43.0


From fca8e9fe2fce9ccc85509aa9949eb7396e65ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 106/111] fix: channels that are transformed come back when a
 state that set them is cleared

---
 packages/vgrammar-core/src/graph/element.ts | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index b882d8a..68e93aa 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -116,6 +116,21 @@ export class Element implements IElement {
         const graphicAttributes = transformAttributes(attrTransforms, attributes, this);
         return graphicAttributes;
       };
+      // states go back to the values before the transform
+      const storedChannels = attrTransforms.reduce(
+        (channels, entry) => (entry.storedAttrs ? channels.concat(entry.channels) : channels),
+        [] as string[]
+      );
+      if (storedChannels.length) {
+        const graphicItem = this.graphicItem as any;
+        const getNormalAttribute = graphicItem.getNormalAttribute;
+        graphicItem.getNormalAttribute = (key: string) => {
+          const value = getNormalAttribute.call(graphicItem, key);
+          return this.mark && storedChannels.includes(key) && value === graphicItem.attribute[key]
+            ? this.getGraphicAttribute(key)
+            : value;
+        };
+      }
     }
 
     // transform initial attributes
-- 
2.43.0


From 9d90f57202b0f45e86d35ccc2ef8fa3ee2a71cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 107/111] fix: growIntervalIn of transposed intervals grows to
 x1 and leaves y1 alone

---
 .../src/graph/animation/animation/grow-interval.ts            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts b/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
index e56d80a..8d70702 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
@@ -22,7 +22,7 @@ function growIntervalInIndividual(
     }
     return {
       from: { x: x, x1: x },
-      to: { x: x, y1: x1 }
+      to: { x: x, x1: x1 }
     };
   }
   const y = attrs?.y;
@@ -65,7 +65,7 @@ function growIntervalInOverall(
     }
     return {
       from: { x: overallValue, x1: overallValue },
-      to: { x: x, y1: x1 }
+      to: { x: x, x1: x1 }
     };
   }
 
-- 
2.43.0


From 9c50b92ecbea50da391df854dbcc0d1e8a100c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 108/111] fix: both edges of an area shrink together in the
 growPoints exit animations

---
 .../graph/animation/animation/grow-points.ts  | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts b/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
index 7390996..c7c85a3 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
@@ -32,12 +32,20 @@ const getCenterPoints = (
     }
   }
 
-  if (element.mark.markType === 'area') {
-    center.x1 = center.x;
-    center.y1 = center.y;
-  }
+  const isArea = element.mark.markType === 'area';
+
+  return points.map(point => {
+    const centerPoint = Object.assign({}, point, center);
 
-  return points.map(point => Object.assign({}, point, center));
+    // the other edge of an area falls back to x / y, it can't be interpolated when only one end has it
+    if (isArea && isValidNumber(point.x1)) {
+      centerPoint.x1 = center.x;
+    }
+    if (isArea && isValidNumber(point.y1)) {
+      centerPoint.y1 = center.y;
+    }
+    return centerPoint;
+  });
 };
 
 export const growPointsIn: TypeAnimation<IElement> = (
@@ -84,7 +92,7 @@ const changePointsX = (
         ...point,
         x: groupRight,
         y: point.y,
-        x1: groupRight,
+        x1: isValidNumber(point.x1) ? groupRight : point.x1,
         y1: point.y1,
         defined: point.defined !== false
       } as IPointLike;
@@ -93,7 +101,7 @@ const changePointsX = (
       ...point,
       x: 0,
       y: point.y,
-      x1: 0,
+      x1: isValidNumber(point.x1) ? 0 : point.x1,
       y1: point.y1,
       defined: point.defined !== false
     } as IPointLike;
@@ -145,7 +153,7 @@ const changePointsY = (
         x: point.x,
         y: groupBottom,
         x1: point.x1,
-        y1: groupBottom,
+        y1: isValidNumber(point.y1) ? groupBottom : point.y1,
         defined: point.defined !== false
       } as IPointLike;
     }
@@ -154,7 +162,7 @@ const changePointsY = (
       x: point.x,
       y: 0,
       x1: point.x1,
-      y1: 0,
+      y1: isValidNumber(point.y1) ? 0 : point.y1,
       defined: point.defined !== false
     } as IPointLike;
   });
-- 
2.43.0


From 2c43b91c9f654e7179a474960a61dd0c766360bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 109/111] fix: growIntervalIn and growIntervalOut use the
 overall value they are given

---
 .../src/graph/animation/animation/grow-interval.ts          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts b/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
index 8d70702..264ff30 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
@@ -101,10 +101,11 @@ export const growIntervalIn: TypeAnimation<IElement> = (
   const isPolar = coord.type === 'polar';
   const newOptions: IGrowCartesianAnimationOptions = {
     orient: 'negative',
+    overall: options?.overall,
     direction: isTransposed && !isPolar ? 'x' : 'y'
   };
 
-  return options && options.overall !== true
+  return options && options.overall !== true && !isNumber(options.overall)
     ? growIntervalInIndividual(element, newOptions, animationParameters)
     : growIntervalInOverall(element, newOptions, animationParameters);
 };
@@ -208,10 +209,11 @@ export const growIntervalOut: TypeAnimation<IElement> = (
   const isPolar = coord.type === 'polar';
   const newOptions: IGrowCartesianAnimationOptions = {
     orient: 'negative',
+    overall: options?.overall,
     direction: isTransposed && !isPolar ? 'x' : 'y'
   };
 
-  return options && options.overall !== true
+  return options && options.overall !== true && !isNumber(options.overall)
     ? growIntervalOutIndividual(element, newOptions, animationParameters)
     : growIntervalOutOverall(element, newOptions, animationParameters);
 };
-- 
2.43.0


From 850f59bfa21f6ded1d08d89a3c27e48db88271f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 110/111] fix: a sankey node without links is highlighted, not
 blurred, when it is pointed at

---
 packages/vgrammar-sankey/src/sankey-highlight.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/sankey-highlight.ts b/packages/vgrammar-sankey/src/sankey-highlight.ts
index 0e6fbb7..78dfd4d 100644
--- a/packages/vgrammar-sankey/src/sankey-highlight.ts
+++ b/packages/vgrammar-sankey/src/sankey-highlight.ts
@@ -133,7 +133,7 @@ export class SankeyHighlight extends BaseInteraction<SankeyHighlightOptions> {
 
     const datum = element.getDatum() as SankeyNodeElement;
     const allNodeElements = this._nodeMark?.elements ?? [];
-    const highlightNodes: (string | number)[] = [];
+    const highlightNodes: (string | number)[] = [datum.key];
     const allLinkElements = this._linkMark?.elements ?? [];
     const highlightLinks: SankeyLinkElement[] = [];
     const allNodes = allNodeElements.reduce((res, nodeEl) => {
-- 
2.43.0


From 233d276bb30bb8c23d72deee72fec1602d7482e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 111/111] fix: a removed fish-eye takes its distortion from the
 scales, not their range factor

---
 packages/vgrammar-core/src/interactions/fish-eye.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/fish-eye.ts b/packages/vgrammar-core/src/interactions/fish-eye.ts
index 0934311..286b5b8 100644
--- a/packages/vgrammar-core/src/interactions/fish-eye.ts
+++ b/packages/vgrammar-core/src/interactions/fish-eye.ts
@@ -177,7 +177,7 @@ export class FishEye extends BaseInteraction<FishEyeOptions> {
         const { scale } = this._state[dim as 'x' | 'y'];
 
         if (scale) {
-          scale.setRangeFactor(null);
+          scale.setFishEye(null);
           scale.commit();
         }
       });
-- 
2.43.0

