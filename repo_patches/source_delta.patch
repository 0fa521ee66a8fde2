From 71dda1b6f700ab85a3ab6a3a95976fafa8c1b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 001/160] fix: pass the arguments of cancelExec to the task

---
 packages/function/src/control/cancelExec.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index 256c3eb..d8810c0 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -42,7 +42,7 @@ export default function cancelExec<R, A extends unknown[]>(
 
     return [
         Promise.race([
-            toPromise(callable),
+            toPromise(callable, args),
             new Promise(resolve => {
                 abort = payload => resolve(toPromise(payload, args));
             })
-- 
2.43.0


From cfeba86874057daac9b58d5ccf84e7b9a06112ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 002/160] fix: pass the arguments of select to the condition

---
 packages/function/src/select/select.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/select/select.ts b/packages/function/src/select/select.ts
index a712db0..7341a3f 100644
--- a/packages/function/src/select/select.ts
+++ b/packages/function/src/select/select.ts
@@ -24,7 +24,7 @@ export default async function select<A extends unknown[], T>(
     doElse?: ((...args: A) => any) | Promise<any> | T | null | undefined,
     ...args: A
 ): Promise<T | null | undefined> {
-    return (await executeToPromise(condition))
+    return (await executeToPromise(condition, args))
         ? executeToPromise(doIf, args)
         : executeToPromise(doElse, args);
 }
-- 
2.43.0


From 6f4b485ea7ce67fdf45339d681c1f103619e9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 003/160] fix: let later partial applications of a curried
 function take several arguments

---
 packages/function/src/currying.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/currying.ts b/packages/function/src/currying.ts
index 0146f95..88c4155 100644
--- a/packages/function/src/currying.ts
+++ b/packages/function/src/currying.ts
@@ -93,7 +93,7 @@ function currying(fn: (...args: any[]) => any): (...args: any[]) => any {
     return function curried(...args: any[]) {
         return args.length >= depth
             ? fn.apply(fn, args)
-            : (arg: any) => curried(...args, arg);
+            : (...rest: any[]) => curried(...args, ...rest);
     };
 }
 
-- 
2.43.0


From 9eda5d195f1ec189f1b8d9241ba17787fe75d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 004/160] fix: toggle between NaN or signed zeros and another
 value

---
 packages/function/src/select/toggle.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/select/toggle.ts b/packages/function/src/select/toggle.ts
index 9f6327a..bfd8fb6 100644
--- a/packages/function/src/select/toggle.ts
+++ b/packages/function/src/select/toggle.ts
@@ -38,7 +38,9 @@ export default function toggle<L, R>(
 
         /** 切换当前值 */
         toggle() {
-            value = value === defaultValue ? reverseValue : defaultValue;
+            value = Object.is(value, defaultValue)
+                ? reverseValue
+                : defaultValue;
             return value;
         },
 
-- 
2.43.0


From feb471d35fcfdda4d684fd9dd700e5b9ba33e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 005/160] fix: do not return the singleton of a parent class
 from singletonClass

---
 packages/function/src/class/singletonClass.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/class/singletonClass.ts b/packages/function/src/class/singletonClass.ts
index a83fc6f..c8daf2c 100644
--- a/packages/function/src/class/singletonClass.ts
+++ b/packages/function/src/class/singletonClass.ts
@@ -36,7 +36,12 @@ export default function singletonClass<T extends Class>(classTarget: T) {
                 return Reflect.construct(target, argumentsList, newTarget);
             }
 
-            if (!target[CLASS_SINGLETON_KEY]) {
+            if (
+                !Object.prototype.hasOwnProperty.call(
+                    target,
+                    CLASS_SINGLETON_KEY
+                )
+            ) {
                 target[CLASS_SINGLETON_KEY] = Reflect.construct(
                     target,
                     argumentsList,
-- 
2.43.0


From becb0c4d8d3ac9c587a910540f93bd291c06a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 006/160] fix: do not lose or mix items collected while a batch
 is still resolving

---
 packages/function/src/control/collectItems.ts | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/collectItems.ts b/packages/function/src/control/collectItems.ts
index 91c3b3b..f6069a8 100644
--- a/packages/function/src/control/collectItems.ts
+++ b/packages/function/src/control/collectItems.ts
@@ -87,17 +87,14 @@ export default function collectItems(options?: any) {
             ((isUndefined(total) && isDoneOnce) ||
                 (isUint(total) && !(promises.length % total)))
         ) {
-            return await Promise.all(promises).then(value => {
-                if (!isRestart) {
-                    isOverOnce = true;
-                }
+            // 在等待之前就要取出当前批次，避免等待期间新收集的项丢失或被重复返回
+            const batch = isAccumulate ? promises.slice() : promises.splice(0);
 
-                if (!isAccumulate) {
-                    promises.length = 0;
-                }
+            if (!isRestart) {
+                isOverOnce = true;
+            }
 
-                return { done: true, value };
-            });
+            return { done: true, value: await Promise.all(batch) };
         }
 
         return { done: false, value: void 0 };
-- 
2.43.0


From 76cfafe1ee6c361498b56711ad6a5f4e4d4cc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 007/160] fix: timeoutOr: stop the timer when the task fails
 and keep the timeout's verdict

---
 packages/function/src/timeout/timeoutOr.ts | 29 ++++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index bcc91d2..d252dce 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -32,15 +32,22 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     ...args: A
 ) {
     let timer;
-    const ret = await Promise.race([
-        toPromise(callable, args),
-        new Promise(resolve => {
-            timer = setTimeout(
-                () => resolve(executeToPromise(callback, args)),
-                timeoutMsResolve(duration)
-            );
-        })
-    ]);
-    clearTimeout(timer);
-    return ret;
+    let isTimeout = false;
+
+    try {
+        const ret = await Promise.race([
+            toPromise(callable, args),
+            new Promise<void>(resolve => {
+                timer = setTimeout(() => {
+                    isTimeout = true;
+                    resolve();
+                }, timeoutMsResolve(duration));
+            })
+        ]);
+
+        // 一旦超时，无论回调函数需要执行多久，都使用回调函数的结果
+        return isTimeout ? await executeToPromise(callback, args) : ret;
+    } finally {
+        clearTimeout(timer);
+    }
 }
-- 
2.43.0


From 05781553c1ae0d3562b2a3459b2fb9720383bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 008/160] fix: copy keeps the elements and length of typed
 arrays

---
 packages/util/src/copy.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 297b447..b8ef501 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -109,6 +109,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
 
         case 'BigInt64Array':
         case 'BigUint64Array':
+        case 'Int8Array':
+        case 'Uint8Array':
+        case 'Uint8ClampedArray':
+        case 'Int16Array':
+        case 'Uint16Array':
+        case 'Int32Array':
+        case 'Uint32Array':
+        case 'Float32Array':
+        case 'Float64Array':
             return new value.constructor(value);
 
         case 'DataView': {
@@ -147,15 +156,6 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
 
         case 'ArrayBuffer':
         case 'SharedArrayBuffer':
-        case 'Int8Array':
-        case 'Uint8Array':
-        case 'Uint8ClampedArray':
-        case 'Int16Array':
-        case 'Uint16Array':
-        case 'Int32Array':
-        case 'Uint32Array':
-        case 'Float32Array':
-        case 'Float64Array':
             return copyArrayBuffer(value);
 
         case 'Arguments':
-- 
2.43.0


From c5ebaedbf29f566c7e29123601a73898bf144cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 009/160] fix: copy keeps the trailing holes of sparse arrays

---
 packages/util/src/copy.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index b8ef501..a1ed8c7 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -170,6 +170,12 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             const instance = isNull(proto)
                 ? Object.create(null)
                 : new proto.constructor();
+
+            // 稀疏数组末尾的空位没有对应的属性，所以要保留长度
+            if (typeTag === 'Array') {
+                instance.length = value.length;
+            }
+
             weak.set(value, instance);
             return copyAttrs(value, instance, weak);
         }
-- 
2.43.0


From 6d31a6c4ff72bf5ef6cd16c8bab691f793cc57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 010/160] fix: copy clones the contents of Map and Set

---
 packages/util/src/copy.ts | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index a1ed8c7..ac92888 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -145,12 +145,28 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         // `String` 为 `string` 的包装的形式
         case 'Date':
         case 'FileReader':
-        case 'Set':
-        case 'Map':
         case 'URL':
         case 'URLSearchParams':
             return copyBaseType(value);
 
+        case 'Set': {
+            const set = new (Object.getPrototypeOf(value).constructor)();
+            weak.set(value, set);
+            for (const v of value) {
+                set.add(recursiveCopy(v, weak));
+            }
+            return set;
+        }
+
+        case 'Map': {
+            const map = new (Object.getPrototypeOf(value).constructor)();
+            weak.set(value, map);
+            for (const [k, v] of value) {
+                map.set(recursiveCopy(k, weak), recursiveCopy(v, weak));
+            }
+            return map;
+        }
+
         case 'Generator':
             return copyGenerator(value);
 
-- 
2.43.0


From 87521ef1c9cae37471dd1d4643cbb0546d6a9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 011/160] fix: copy keeps shared built-in objects shared and
 terminates on their cycles

---
 packages/util/src/copy.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index ac92888..0effdd4 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -275,16 +275,19 @@ function recursiveCopy<T extends object>(
         return copyFunction(value, weak);
     }
 
-    // 是不是 `Buffer`
-    if (isBuffer(value)) {
-        return copyAttrs(value, Buffer.from(value), weak);
-    }
-
     if (weak.has(value)) {
         return weak.get(value);
     }
 
-    return copyAttrs(value, copyByTag(value, weak), weak);
+    // 是不是 `Buffer`
+    const target = isBuffer(value)
+        ? Buffer.from(value)
+        : copyByTag(value, weak);
+
+    // 先记录再拷贝属性，否则在属性中引用自身时会无限递归
+    weak.set(value, target);
+
+    return copyAttrs(value, target, weak);
 }
 
 /**
-- 
2.43.0


From 11ea797efbdcbd8342a964927a33cde0c7dce645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 012/160] fix: toTree accepts ids that are names of
 Object.prototype members

---
 packages/array/src/convert/toTree.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 10561a5..46bc20c 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -105,11 +105,15 @@ export default function toTree(
         assign = false
     } = options;
 
+    // 只有自身属性才算是根节点的 `parentId`，从原型继承来的 (例如 `constructor`) 不算
+    const isRootParentId = (key: any) =>
+        hasOwnProperty(rootParentIds, key) && rootParentIds[key];
+
     // 结果中的树结构
     const rootItems: TreeItem[] = [];
 
     // 存储所有已处理的项，使用它们的 `id` 作为键，以便于查找
-    const lookup: { [id: string]: TreeItem } = {};
+    const lookup: { [id: string]: TreeItem } = Object.create(null);
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
@@ -133,7 +137,7 @@ export default function toTree(
             parentId = item[pid];
         }
 
-        if (rootParentIds[itemId]) {
+        if (isRootParentId(itemId)) {
             throw new Error(
                 `items 数组中包含一个节点，它的 parentId 既存在于另一个节点中又在 rootParentIds 中。` +
                     `{itemId: "${itemId}", rootParentIds: ${JSON.stringify(Object.keys(rootParentIds))}}`
@@ -167,7 +171,7 @@ export default function toTree(
 
         const treeItem = lookup[itemId];
 
-        if (parentId == null || rootParentIds[parentId]) {
+        if (parentId == null || isRootParentId(parentId)) {
             // 是一个根项
             rootItems.push(treeItem);
         } else {
-- 
2.43.0


From f6de8bcae6ed59a26a5804d5381ce7f6bf1fbca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 013/160] fix: toTree does not report a parent with a numeric
 id as missing when it is named by a string

---
 packages/array/src/convert/toTree.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 46bc20c..367a52e 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -117,7 +117,7 @@ export default function toTree(
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
-    const orphanIds: null | Set<string | number> = throwIfOrphans
+    const orphanIds: null | Set<string> = throwIfOrphans
         ? new Set()
         : null;
 
@@ -152,7 +152,8 @@ export default function toTree(
 
         // 如果我们跟踪孤立节点，如果此项在孤立节点集中，则将其删除
         if (orphanIds) {
-            orphanIds.delete(itemId);
+            // 和查找表的键一样，不区分数字和数字字符串
+            orphanIds.delete(String(itemId));
         }
 
         // 将当前项的数据添加到查找表中的项中
@@ -184,7 +185,7 @@ export default function toTree(
 
                 // 如果我们跟踪孤立节点，将生成的父项添加到孤立节点列表中
                 if (orphanIds) {
-                    orphanIds.add(parentId);
+                    orphanIds.add(String(parentId));
                 }
             }
 
-- 
2.43.0


From a979c9dbf23f2e1eaf129b94435758524b612e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 014/160] fix: maxRecursionDepth of arrays with very many items

---
 packages/array/src/maxRecursionDepth.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/packages/array/src/maxRecursionDepth.ts b/packages/array/src/maxRecursionDepth.ts
index 2180ff2..8ab70d9 100644
--- a/packages/array/src/maxRecursionDepth.ts
+++ b/packages/array/src/maxRecursionDepth.ts
@@ -41,12 +41,8 @@ export default function maxRecursionDepth<T extends any[]>(
         return _depth(value, 1);
     }
 
-    if (value.length === 0) {
-        return 1;
-    }
-
-    return Math.max.apply(
-        null,
-        value.reduce((m, v) => m.concat(maxRecursionDepth(v) + 1), [])
+    return value.reduce(
+        (depth, item) => Math.max(depth, maxRecursionDepth(item) + 1),
+        1
     );
 }
-- 
2.43.0


From 0c1e67037728935cfd678332c06b1667623af3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 015/160] fix: randomSafe draws 53 bits, so that rangeSafe
 reaches the end of wide ranges

---
 packages/number/src/randomSafe.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/number/src/randomSafe.ts b/packages/number/src/randomSafe.ts
index 89f8f43..62b7a86 100644
--- a/packages/number/src/randomSafe.ts
+++ b/packages/number/src/randomSafe.ts
@@ -14,7 +14,8 @@ const crypto = getCrypto();
  * - 如果想生成快速且不安全的随机数，请使用 `random` 方法
  */
 export default function randomSafe(): number {
-    const arr = new Uint32Array(1);
+    const arr = new Uint32Array(2);
     crypto.getRandomValues(arr);
-    return arr[0] * 2 ** -32;
+    // 取 27 位和 26 位组成 53 位的整数，与 `Math.random` 的精度相同
+    return ((arr[0] >>> 5) * 2 ** 26 + (arr[1] >>> 6)) * 2 ** -53;
 }
-- 
2.43.0


From aaf5227ae7d658d34683065e70a84047787dc1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 016/160] fix: amountInWords rejects exponent and non-decimal
 notation instead of writing another amount

---
 packages/number/src/amount/amountInWords.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 4a5b7b9..fd3fc81 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -150,6 +150,13 @@ export default function amountInWords(
 
     amount = `${amount}`.trim();
 
+    // 科学计数法和其他进制的数字无法按位转换
+    if (/[a-z]/i.test(amount)) {
+        throw new TypeError(
+            `[amountInWords] amount 必须是十进制的金额数字或字符串: ${amount}`
+        );
+    }
+
     let integerResult = convertInteger(amount);
     const decimalResult = convertDecimal(amount);
 
-- 
2.43.0


From b17be3a9f4872170fe4b58f72ef8e80681f4090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 017/160] fix: withDelimiter inserts delimiters that contain $
 literally

---
 packages/number/src/withDelimiter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/number/src/withDelimiter.ts b/packages/number/src/withDelimiter.ts
index b26a320..f699907 100644
--- a/packages/number/src/withDelimiter.ts
+++ b/packages/number/src/withDelimiter.ts
@@ -42,7 +42,7 @@ export default function withDelimiter(
     const [integerPart, decimalPart] = numStr.split('.');
 
     const regex = new RegExp(`\\B(?=(\\d{${capacity}})+(?!\\d))`, 'g');
-    const integerWithCommas = integerPart.replace(regex, delimiter);
+    const integerWithCommas = integerPart.replace(regex, () => delimiter);
 
     return decimalPart
         ? `${integerWithCommas}.${decimalPart}`
-- 
2.43.0


From 0c0ff20510d18349e7734e119a1b8c4732d15c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 018/160] fix: fromCascadeKeys keeps the second of two keys and
 the array it is given

---
 packages/object/src/cascade/fromCascadeKeys.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index ae34cba..1e48767 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -56,7 +56,7 @@ export default function fromCascadeKeys(
     }
 
     // 获取到第一项
-    let first = addPack(keys.shift()!, oc, false);
+    let first = addPack(keys[0], oc, false);
 
     // 如果不需要给第一项的开头加 `.`
     if (!startDot && first.startsWith('.')) {
@@ -69,5 +69,8 @@ export default function fromCascadeKeys(
     }
 
     // 遍历剩余项
-    return keys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
+    return keys
+        .slice(1)
+        .reduce((m, k) => (m.push(addPack(k, oc)), m), [first])
+        .join('');
 }
-- 
2.43.0


From d5db5f8fa19141e0379a9f80963dc7c7303ea2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 019/160] fix: fromCascadeKeys quotes keys that are not
 identifiers or contain a single quote

---
 packages/object/src/cascade/fromCascadeKeys.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index 1e48767..f066f88 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -15,7 +15,7 @@ const addPack = (
 
     //# 处理字符串
 
-    if (/^[^0-9][\w$]*$/.test(key)) {
+    if (/^[\p{L}_$][\w$]*$/u.test(key)) {
         return isAppendWen ? `${optionalChar}.${key}` : `.${key}`;
     }
 
@@ -23,7 +23,7 @@ const addPack = (
         return `[${key}]`;
     }
 
-    return `['${key}']`;
+    return key.includes("'") ? `["${key}"]` : `['${key}']`;
 };
 
 /**
-- 
2.43.0


From 34719eb54256ed0c23366853a14efd395862dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 020/160] fix: toCascadeKeys keeps its position after
 characters outside the BMP

---
 packages/object/src/cascade/toCascadeKeys.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index c77c680..4806f2d 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,4 +1,3 @@
-import { chars } from '@curong/string';
 import { format } from '@curong/term';
 import { isArrayIndex } from '@curong/types';
 
@@ -36,7 +35,7 @@ export default function toCascadeKeys(
     let tmpKey = '';
 
     const name = 'toCascadeKeys';
-    const charsArray = chars(value);
+    const charsArray = value.split('');
     const pushK = (key: string) => (key = key.trimEnd()) && ret.push(key);
 
     const vKey = (key: string) => {
-- 
2.43.0


From 0400481cf871ca0767bf3e67b89d5a039cde0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 021/160] fix: toCascadeKeys accepts falsy dependencies and
 only defined ones

---
 packages/object/src/cascade/toCascadeKeys.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index 4806f2d..af5ad8f 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,5 +1,5 @@
 import { format } from '@curong/term';
-import { isArrayIndex } from '@curong/types';
+import { isArrayIndex, isNumber, isString } from '@curong/types';
 
 import type { ObjectType } from '../types';
 
@@ -67,7 +67,7 @@ export default function toCascadeKeys(
 
         const v = dependencies[key];
 
-        if (!v) {
+        if (!isString(v) && !isNumber(v)) {
             throw format({
                 name,
                 message: `"${key}" 属性并未在 dependencies 参数中定义`,
-- 
2.43.0


From 251d4d4b4b703c9a91679f05eb8b05b53c5df633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 022/160] fix: sortKeys sorts nested values only with deep

---
 packages/object/src/keys/sortKeys.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/keys/sortKeys.ts b/packages/object/src/keys/sortKeys.ts
index 5d13a51..0222ba7 100644
--- a/packages/object/src/keys/sortKeys.ts
+++ b/packages/object/src/keys/sortKeys.ts
@@ -88,7 +88,9 @@ export default function sortKeys(
                 ...descriptor,
                 ...(get || set
                     ? { get, set }
-                    : { value: processValue(object[key]) })
+                    : {
+                          value: deep ? processValue(object[key]) : object[key]
+                      })
             });
         }
 
-- 
2.43.0


From 3ec1aa95a746853c7a5cf9add5321f510f80f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 023/160] fix: deleteAttrs leaves the list of keys it is given
 unchanged

---
 packages/object/src/deleteAttrs.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/deleteAttrs.ts b/packages/object/src/deleteAttrs.ts
index c0fd294..68acadf 100644
--- a/packages/object/src/deleteAttrs.ts
+++ b/packages/object/src/deleteAttrs.ts
@@ -22,13 +22,14 @@ export default function deleteAttrs<T extends ObjectType>(
     obj: T,
     deleteKeys: Array<keyof T>
 ): T {
+    const keys = deleteKeys.slice();
     let key: PropertyKey | undefined;
 
-    while (!isUndefined((key = deleteKeys.pop()))) {
+    while (!isUndefined((key = keys.pop()))) {
         if (!Reflect.deleteProperty(obj, key)) {
-            deleteKeys.push(key as keyof T);
+            keys.push(key as keyof T);
 
-            return derive(obj, deleteKeys);
+            return derive(obj, keys);
         }
     }
 
-- 
2.43.0


From f02a07c30b44cedc4c44a53d1c26973ff274a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 024/160] fix: cascade escapes keys in the code it evaluates

---
 packages/object/src/cascade/cascade.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/cascade.ts b/packages/object/src/cascade/cascade.ts
index 684f9f1..48f0ba2 100644
--- a/packages/object/src/cascade/cascade.ts
+++ b/packages/object/src/cascade/cascade.ts
@@ -3,7 +3,6 @@ import { isStringFilled } from '@curong/types';
 
 import type { ObjectType } from '../types';
 
-import fromCascadeKeys from './fromCascadeKeys';
 import toCascadeKeys from './toCascadeKeys';
 
 /**
@@ -42,7 +41,14 @@ export default function cascade<T = unknown>(
     }
 
     const keys = toCascadeKeys(cascadeKey, dependencies);
-    const key = fromCascadeKeys(keys, { optional: true, startDot: true });
+    // 这里生成的是代码，因此属性名必须是转义过的字符串
+    const key = keys
+        .map((k, i) =>
+            /^[\p{L}_$][\w$]*$/u.test(`${k}`)
+                ? `${i ? '?' : ''}.${k}`
+                : `[${JSON.stringify(k)}]`
+        )
+        .join('');
     const f = new Function('o', `return o${key};`);
 
     if (isThrow) {
-- 
2.43.0


From 2150cb26b1105b83e83d5f162b4c66ea8a5400cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 025/160] fix: stringify with a replacer array keeps array
 elements and matches number entries

---
 packages/object/src/stringify.ts | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index 42300f1..de91fa7 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -126,14 +126,12 @@ export default function stringify(
             return replacer(k, safeStringifyReplacer(v, compare, cycles));
         };
     } else if (isArray(replacer)) {
-        const memo = new Set(replacer);
-        handler = (k: string, v: any) => {
-            // 第一次时，`key` 为空
-            if (!k) {
-                return v;
-            }
-
-            if (memo.has(k)) {
+        const memo = new Set(replacer.map(String));
+        let isRoot = true;
+        handler = function (this: any, k: string, v: any) {
+            // 第一次时处理的是 `value` 本身，数组中的元素也不应该被过滤
+            if (isRoot || isArray(this) || memo.has(k)) {
+                isRoot = false;
                 return safeStringifyReplacer(v, compare, cycles);
             }
         };
-- 
2.43.0


From b932005217bb670df7e3e545fda593dbd2feaef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 026/160] fix: isPlainObject accepts plain objects with a
 constructor key

---
 packages/types/src/object/isPlainObject.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/types/src/object/isPlainObject.ts b/packages/types/src/object/isPlainObject.ts
index 92fdacd..7c7943a 100644
--- a/packages/types/src/object/isPlainObject.ts
+++ b/packages/types/src/object/isPlainObject.ts
@@ -15,8 +15,6 @@ export default function isPlainObject<K extends PropertyKey, V = unknown>(
     value: unknown
 ): value is Record<K, V> {
     return (
-        isObject(value) &&
-        value.constructor === Object &&
-        Object.getPrototypeOf(value) === Object.prototype
+        isObject(value) && Object.getPrototypeOf(value) === Object.prototype
     );
 }
-- 
2.43.0


From 06a715474547df7284a6fddc0d9b1e4a0c709c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 027/160] fix: createCookie does not expire cookies without
 maxAge at once

---
 packages/cookie/src/cookie/create.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 0f9c9a0..ad6a2ab 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -4,7 +4,8 @@ import {
     isFunctionFilled,
     isString,
     isStringFilled,
-    isTrue
+    isTrue,
+    isUndefined
 } from '@curong/types';
 
 import type { CreateCookieOptions } from './types';
@@ -69,7 +70,8 @@ export default function createCookie(
         [key: string]: (value: any, chunk: string[]) => string[];
     } = {
         maxAge(v: number, chunk: string[]) {
-            chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
+            isUndefined(v) ||
+                chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
             return chunk;
         },
 
-- 
2.43.0


From 07b8ddc683db8ff7334ce82d42678b2745302770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 028/160] fix: createCookie works without options

---
 packages/cookie/src/cookie/create.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index ad6a2ab..f4b2c97 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -46,7 +46,7 @@ import type { CreateCookieOptions } from './types';
 export default function createCookie(
     name: string,
     value: string,
-    options: CreateCookieOptions
+    options?: CreateCookieOptions
 ): string {
     const verifyReg = /^[\u0009\u0020-\u007e\u0080-\u00ff]+$/;
 
@@ -128,7 +128,7 @@ export default function createCookie(
         .reduce(
             (memo: string[], v: string) => {
                 return compiler[v](
-                    options[v as keyof CreateCookieOptions],
+                    options?.[v as keyof CreateCookieOptions],
                     memo
                 );
             },
-- 
2.43.0


From 16f58994762925c7b3196397fc89e27e05dfdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 029/160] fix: createCookie does not let a name, value, domain
 or path add attributes

---
 packages/cookie/src/cookie/create.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index f4b2c97..e289aff 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -48,9 +48,9 @@ export default function createCookie(
     value: string,
     options?: CreateCookieOptions
 ): string {
-    const verifyReg = /^[\u0009\u0020-\u007e\u0080-\u00ff]+$/;
+    const verifyReg = /^[\u0009\u0020-\u003a\u003c-\u007e\u0080-\u00ff]+$/;
 
-    if (!isString(name) || !verifyReg.test(name)) {
+    if (!isString(name) || name.includes('=') || !verifyReg.test(name)) {
         throw new TypeError(`[create]: name的值不是预期的: "${name}"`);
     }
 
-- 
2.43.0


From b4f249b7a694285eb14709659395f85b3f34becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 030/160] fix: parseCookie keeps values that contain an equals
 sign

---
 packages/cookie/src/cookie/parse.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 5cde997..f0198c5 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -80,8 +80,12 @@ export default function parseCookie(
     ) {
         switch (cookie[i]) {
             case '=':
-                key = cookie.slice(star, i).trim();
-                star = i + 1;
+                // 值中也可以包含等号
+                if (!isString(key)) {
+                    key = cookie.slice(star, i).trim();
+                    star = i + 1;
+                }
+
                 break;
 
             case ';':
-- 
2.43.0


From cf64a23d82bba433a9807fdd27f0c67d54269ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 031/160] fix: parseCookie does not give the text of a part
 without an equals sign to the next name

---
 packages/cookie/src/cookie/parse.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index f0198c5..895bfa9 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -89,7 +89,10 @@ export default function parseCookie(
                 break;
 
             case ';':
-                value = getDecode(cookie.slice(star, i), decode);
+                // 没有等号的片段不是一个有效的 `cookie`
+                value = isString(key)
+                    ? getDecode(cookie.slice(star, i), decode)
+                    : null;
                 star = i + 1;
                 break;
 
-- 
2.43.0


From 82c88c9b97fb8042a86686b97552586a50d06a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 032/160] fix: parseCookie keeps the last cookie of a text that
 ends with a line break

---
 packages/cookie/src/cookie/parse.ts | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 895bfa9..6428da3 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -95,10 +95,6 @@ export default function parseCookie(
                     : null;
                 star = i + 1;
                 break;
-
-            // NOTE: 逻辑是否正确呢?
-            case '\n':
-                continue;
         }
 
         if (isString(key)) {
-- 
2.43.0


From 91302d23607a5a181e3e0744815ad8e20e2c106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 033/160] fix: splitSetCookie drops the spaces after a joining
 comma

---
 packages/cookie/src/setCookie/split.ts | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/packages/cookie/src/setCookie/split.ts b/packages/cookie/src/setCookie/split.ts
index e371fcf..3ae7ec4 100644
--- a/packages/cookie/src/setCookie/split.ts
+++ b/packages/cookie/src/setCookie/split.ts
@@ -2,14 +2,6 @@ import { isStringFilled } from '@curong/types';
 
 import { COMMA, EQUAL, SEMICOLON, whiteSpaceReg } from './constants';
 
-const skipSpace = (cookie: string, index: number) => {
-    while (index < cookie.length && whiteSpaceReg.test(cookie.charAt(index))) {
-        index += 1;
-    }
-
-    return index < cookie.length;
-};
-
 /**
  * 将以逗号合并在一起的 `set-cookie` 字符串转换为 `set-cookie` 字符串数组
  *
@@ -47,6 +39,17 @@ export default function splitSetCookie(cookie: string): string[] {
     let nextStart: number;
     let isSep: boolean;
 
+    const skipSpace = () => {
+        while (
+            index < cookie.length &&
+            whiteSpaceReg.test(cookie.charAt(index))
+        ) {
+            index += 1;
+        }
+
+        return index < cookie.length;
+    };
+
     const isSpecial = () => {
         char = cookie.charAt(index);
         return char !== EQUAL && char !== SEMICOLON && char !== COMMA;
@@ -56,13 +59,13 @@ export default function splitSetCookie(cookie: string): string[] {
         start = index;
         isSep = false;
 
-        while (skipSpace(cookie, index)) {
+        while (skipSpace()) {
             char = cookie.charAt(index);
             if (char === COMMA) {
                 last = index;
                 index += 1;
 
-                skipSpace(cookie, index);
+                skipSpace();
                 nextStart = index;
 
                 while (index < cookie.length && isSpecial()) {
-- 
2.43.0


From 8224d8d2b501ba35fe62527236fd718edfb1094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 034/160] fix: parseSetCookie accepts attributes without a
 value

---
 packages/cookie/src/setCookie/parse.ts | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 2767dc0..46f7d51 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -78,14 +78,8 @@ function parseChunk(cookie: string, isDecode: boolean = true) {
     const result = { name, value } as SetCookieItem;
 
     return parts.reduce((cookie: SetCookieItem, part: string) => {
+        // 像 `Secure` 和 `HttpOnly` 这样的属性是没有值的
         const sides = part.split(equalReg);
-
-        if (sides.length <= 1) {
-            throw new EvalError(
-                `[parseChunk]: part使用等号拆分却只拆分出来一个值出来，"${part}"`
-            );
-        }
-
         const key = sides.shift()!.toLowerCase();
 
         return setCookieValue(cookie, key, sides.join(EQUAL));
-- 
2.43.0


From 0ddf84c63cb1ee5259de7224369d2401dfe8d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 035/160] fix: parseSetCookie accepts cookies without
 attributes

---
 packages/cookie/src/setCookie/parse.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 46f7d51..1a8ff6b 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -55,10 +55,8 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
 function parseChunk(cookie: string, isDecode: boolean = true) {
     const parts = cookie.split(semicolonReg).filter(isStringFilled);
 
-    if (parts.length <= 1) {
-        throw new EvalError(
-            `[parseChunk]: cookie使用分号拆分却只拆分出来一个值出来，"${cookie}"`
-        );
+    if (!parts.length || !parts[0].includes(EQUAL)) {
+        throw new EvalError(`[parseChunk]: 不是一个有效的cookie，"${cookie}"`);
     }
 
     const nameValue = parts.shift()!.split(equalReg);
-- 
2.43.0


From c36cbff60321b584c5c4d95f76ac30156b10e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 036/160] fix: isIp checks the whole text, not only its start
 or end

---
 packages/regexp/src/isIp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bb54e3f..bc3e4f4 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,6 @@
 /** 验证 `IP` 地址的正则表达式 */
 const ipReg =
-    /^(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?$/i;
+    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 2e04cbaf19d8ae2c7e1012e52714de71ab2e5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 037/160] fix: isIp accepts IPv4 addresses and every IPv6 form

---
 packages/regexp/src/isIp.ts | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bc3e4f4..cb355af 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,35 @@
+/** `IPv6` 地址中的一组十六进制数 */
+const h16 = '[0-9a-f]{1,4}';
+
+/** `IPv4` 地址 */
+const ipv4 =
+    '(?:(?:25[0-5]|2[0-4]\\d|1\\d{2}|\\d{1,2})\\.){3}(?:25[0-5]|2[0-4]\\d|1\\d{2}|\\d{1,2})';
+
+/** `IPv6` 地址的最后 32 位 */
+const ls32 = `(?:${h16}:${h16}|${ipv4})`;
+
+/** `IPv6` 地址，参考 RFC 3986 */
+const ipv6 = `(?:${[
+    `(?:${h16}:){6}${ls32}`,
+    `::(?:${h16}:){5}${ls32}`,
+    `(?:${h16})?::(?:${h16}:){4}${ls32}`,
+    `(?:(?:${h16}:){0,1}${h16})?::(?:${h16}:){3}${ls32}`,
+    `(?:(?:${h16}:){0,2}${h16})?::(?:${h16}:){2}${ls32}`,
+    `(?:(?:${h16}:){0,3}${h16})?::${h16}:${ls32}`,
+    `(?:(?:${h16}:){0,4}${h16})?::${ls32}`,
+    `(?:(?:${h16}:){0,5}${h16})?::${h16}`,
+    `(?:(?:${h16}:){0,6}${h16})?::`
+].join('|')})`;
+
+/** 端口号 */
+const port =
+    '(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9])';
+
 /** 验证 `IP` 地址的正则表达式 */
-const ipReg =
-    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
+const ipReg = new RegExp(
+    `^(?:${ipv4}|${ipv6}|\\[${ipv6}\\](?::${port})?)$`,
+    'i'
+);
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 5b4de69191ba5c8f3ed39f44dc748537af2f8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 038/160] fix: isURI rejects malformed percent encodings
 instead of throwing

---
 packages/regexp/src/isURI.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/isURI.ts b/packages/regexp/src/isURI.ts
index 1bfd833..e5ac4a5 100644
--- a/packages/regexp/src/isURI.ts
+++ b/packages/regexp/src/isURI.ts
@@ -45,5 +45,14 @@ import { uri as sourceURI } from './source';
 export default function isURI(uri: string): boolean {
     const reg = new RegExp(`^${sourceURI}$`);
 
-    return reg.test(uri) && encodeURI(decodeURI(uri)).length <= 2e3;
+    if (!reg.test(uri)) {
+        return false;
+    }
+
+    try {
+        return encodeURI(decodeURI(uri)).length <= 2e3;
+    } catch {
+        // 无法解码的百分号编码，如 `%zz` 或 `%ff`
+        return false;
+    }
 }
-- 
2.43.0


From 8e85ed943fb8bdbf67520845ae0cbdfac2aa74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 039/160] fix: isEmail measures user names that contain an at
 sign

---
 packages/regexp/src/isEmail.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isEmail.ts b/packages/regexp/src/isEmail.ts
index e4b6e60..3b39ef1 100644
--- a/packages/regexp/src/isEmail.ts
+++ b/packages/regexp/src/isEmail.ts
@@ -19,7 +19,8 @@ export default function isEmail(email: string): boolean {
         return false;
     }
 
-    const [username, domains] = email.split('@');
+    // 带引号的用户名中可以包含 `@`，而域中不可以
+    const index = email.lastIndexOf('@');
 
-    return username.length <= 64 && domains.length <= 255;
+    return index <= 64 && email.length - index - 1 <= 255;
 }
-- 
2.43.0


From c3449ad5cff7bb1a334d05bfa9698b6b87a15951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 040/160] fix: execAll ends for empty matches and leaves the
 state of the pattern unchanged

---
 packages/regexp/src/execAll.ts | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index 50525e8..38ec6fa 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -181,10 +181,26 @@ export default function execAll(
         keyOrCallback = (match: RegExpExecOrigin) => match;
     } while (false);
 
+    // 与 `String.matchAll` 一样，不改变传入的正则表达式的 `lastIndex`
+    const pattern = new RegExp(reg.source, reg.flags);
+    pattern.lastIndex = reg.lastIndex;
+
     do {
-        match = reg.exec(str) as RegExpExecOrigin;
-        match && res.push(keyOrCallback(match));
-    } while (reg.global && match);
+        match = pattern.exec(str) as RegExpExecOrigin;
+
+        if (match) {
+            res.push(keyOrCallback(match));
+
+            // 空匹配不会移动 `lastIndex`
+            if (match[0] === '') {
+                const isPair =
+                    /[uv]/.test(pattern.flags) &&
+                    str.codePointAt(pattern.lastIndex)! > 0xffff;
+
+                pattern.lastIndex += isPair ? 2 : 1;
+            }
+        }
+    } while (pattern.global && match);
 
     return res;
 }
-- 
2.43.0


From 5d0c0a0f64487b195b8ade056c157340a6095c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 041/160] fix: testSome gives the same answer for stateful
 patterns on every call

---
 packages/regexp/src/testSome.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/testSome.ts b/packages/regexp/src/testSome.ts
index e8430be..7c908eb 100644
--- a/packages/regexp/src/testSome.ts
+++ b/packages/regexp/src/testSome.ts
@@ -29,7 +29,8 @@ export default function testSome(regexps: RegExp[], str: string): boolean {
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (regexps[i].test(str)) {
+        // `search` 不受 `g` 和 `y` 标志下 `lastIndex` 的影响
+        if (str.search(regexps[i]) !== -1) {
             return true;
         }
     }
-- 
2.43.0


From e14057a7c640b9c100cb783aea736d4a1b3b36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 042/160] fix: testEvery gives the same answer for stateful
 patterns on every call

---
 packages/regexp/src/testEvery.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/testEvery.ts b/packages/regexp/src/testEvery.ts
index 5fd75bd..429ad7c 100644
--- a/packages/regexp/src/testEvery.ts
+++ b/packages/regexp/src/testEvery.ts
@@ -32,7 +32,8 @@ export default function testEvery(
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (!regexps[i].test(str)) {
+        // `search` 不受 `g` 和 `y` 标志下 `lastIndex` 的影响
+        if (str.search(regexps[i]) === -1) {
             return false;
         }
     }
-- 
2.43.0


From 42f20c5f269c954523dd4deb2ece405a9023c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 043/160] fix: bytesArray encodes characters outside the basic
 plane and lone surrogates as UTF-8

---
 packages/string/src/bytes/bytesArray.ts | 35 +++++++++++--------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/packages/string/src/bytes/bytesArray.ts b/packages/string/src/bytes/bytesArray.ts
index f19545a..f5e7998 100644
--- a/packages/string/src/bytes/bytesArray.ts
+++ b/packages/string/src/bytes/bytesArray.ts
@@ -17,30 +17,25 @@ import codePointAt from '../character/codePointAt';
 export default function bytesArray(value: string): number[] {
     const buffers = [];
 
-    for (let point = 0, next = 0, i = 0, len = value.length; i < len; i++) {
+    for (let point = 0, i = 0, len = value.length; i < len; i++) {
         point = codePointAt(value, i)!;
 
-        if (point >= 0xd800 && point <= 0xdbff) {
-            next = codePointAt(value, i)!;
-
-            if (next >= 0xdc00 && next <= 0xdfff) {
-                point = (point - 0xd800) * 0x400 + next - 0xdc00 + 0x10000;
-                i++;
+        if (point > 0xffff) {
+            buffers.push(
+                (0x1e << 3) | (point >>> 18),
+                (0x2 << 6) | ((point >>> 12) & 0x3f),
+                (0x2 << 6) | ((point >>> 6) & 0x3f),
+                (0x2 << 6) | (point & 0x3f)
+            );
+            i++;
 
-                if (point > 0xffff) {
-                    buffers.push(
-                        (0x1e << 3) | (point >>> 18),
-                        (0x2 << 6) | ((point >>> 12) & 0x3f),
-                        (0x2 << 6) | ((point >>> 6) & 0x3f),
-                        (0x2 << 6) | (point & 0x3f)
-                    );
+            continue;
+        }
 
-                    continue;
-                }
-            } else {
-                buffers.push(0xef, 0xbf, 0xbd);
-                continue;
-            }
+        // 单独的代理项
+        if (point >= 0xd800 && point <= 0xdfff) {
+            buffers.push(0xef, 0xbf, 0xbd);
+            continue;
         }
 
         if (point <= 0x007f) {
-- 
2.43.0


From 35ab637cad49176b28352a194daa16e1ceb209f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 044/160] fix: splitByBytes returns no hole when the first
 character is longer than the limit

---
 packages/string/src/bytes/splitByBytes.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/bytes/splitByBytes.ts b/packages/string/src/bytes/splitByBytes.ts
index f90c3fc..45724bf 100644
--- a/packages/string/src/bytes/splitByBytes.ts
+++ b/packages/string/src/bytes/splitByBytes.ts
@@ -55,7 +55,7 @@ export default function splitByBytes(value: string, highWaterMark = 4096) {
             });
         }
 
-        if (tmp + byte > highWaterMark) {
+        if (tmp > 0 && tmp + byte > highWaterMark) {
             idx++;
             push(char);
             tmp = byte;
-- 
2.43.0


From aba5af7004c4c1d75ecf46814603254228b930d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 045/160] fix: trim functions take the extra characters
 literally

---
 packages/string/src/trim/trimRegSource.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 2e7672e..3a386fe 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -6,6 +6,8 @@ import {
     zeroWidthRegSource
 } from '../character/characters';
 
+import toRegExpSource from '../regexp/toRegExpSource';
+
 import type { TrimOptions } from './types';
 
 /**
@@ -37,7 +39,10 @@ export const trimRegSource = (
         { is: () => isTrue(control), ret: () => controlRegSource },
         {
             is: () => isStringFilled(extras) || isStringArray(extras),
-            ret: () => `[${[extras].flat().join('')}]`
+            ret: () =>
+                Array.from([extras].flat().join(''), v =>
+                    toRegExpSource(v)
+                ).join('|') || '[]'
         }
     ];
 
-- 
2.43.0


From 1d9ae205a6191c4e502c753706c0ca2f8aaddd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 046/160] fix: isSpaceString rejects empty text when no
 character group is selected

---
 packages/string/src/trim/trimRegSource.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 3a386fe..5483de5 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -46,8 +46,10 @@ export const trimRegSource = (
         }
     ];
 
-    return `(?:${conditions
+    const source = conditions
         .filter(v => v.is())
         .map(v => v.ret())
-        .join('|')})+`;
+        .join('|');
+
+    return `(?:${source || '[]'})+`;
 };
-- 
2.43.0


From 71b11398c8087dc9984a0a902269f0088b7cfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 047/160] fix: behindOf ignoring case searches behind the
 position

---
 packages/string/src/find/behindOf.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/string/src/find/behindOf.ts b/packages/string/src/find/behindOf.ts
index 9712747..57793c5 100644
--- a/packages/string/src/find/behindOf.ts
+++ b/packages/string/src/find/behindOf.ts
@@ -41,8 +41,7 @@ export default function behindOf(
     let fn = (str: string, chunk: string) => str.includes(chunk, pos);
 
     if (isFalse(caseSensitivity)) {
-        const l = str.length;
-        str = str.slice(0, isUint(pos) && pos < l ? pos : l);
+        str = str.slice(isUint(pos) ? pos : 0);
         fn = (str: string, chunk: string) => toRegExp(chunk, 'i').test(str);
     }
 
-- 
2.43.0


From 9ebc7bd38a9afc2f4cc2bfa153c39990b21cd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 048/160] fix: toRegExpSource escapes hyphens in a way that
 unicode patterns accept

---
 packages/string/src/regexp/toRegExpSource.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/regexp/toRegExpSource.ts b/packages/string/src/regexp/toRegExpSource.ts
index f74f909..2d3b7d2 100644
--- a/packages/string/src/regexp/toRegExpSource.ts
+++ b/packages/string/src/regexp/toRegExpSource.ts
@@ -11,5 +11,5 @@
  * ```
  */
 export default function toRegExpSource(str: string): string {
-    return str.replace(/(?=[[\](){}^$.?*+|\\/-])/g, '\\');
+    return str.replace(/(?=[[\](){}^$.?*+|\\/])/g, '\\').replace(/-/g, '\\x2d');
 }
-- 
2.43.0


From b64a8fe8b7f6fec7965646519668071f8afb0d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 049/160] fix: HTML entities of special spaces stand for those
 spaces, not for a plain space

---
 packages/string/src/character/constants/htmlEntities.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/character/constants/htmlEntities.ts b/packages/string/src/character/constants/htmlEntities.ts
index f70d688..58956fe 100644
--- a/packages/string/src/character/constants/htmlEntities.ts
+++ b/packages/string/src/character/constants/htmlEntities.ts
@@ -5,7 +5,7 @@ export default [
     { "value": "'", "name": "apos", "point": "39", "description": "撇号" },
     { "value": "<", "name": "lt", "point": "60", "description": "小于号" },
     { "value": ">", "name": "gt", "point": "62", "description": "大于号" },
-    { "value": " ", "name": "nbsp", "point": "160", "description": "不换行空格" },
+    { "value": "\u00a0", "name": "nbsp", "point": "160", "description": "不换行空格" },
     { "value": "¡", "name": "iexcl", "point": "161", "description": "倒置叹号" },
     { "value": "¢", "name": "cent", "point": "162", "description": "分 (货币符号))" },
     { "value": "£", "name": "pound", "point": "163", "description": "镑 (货币符号)" },
@@ -161,9 +161,9 @@ export default [
     { "value": "ϑ", "name": "thetasym", "point": "977", "description": "希腊字母ϑ，手写体" },
     { "value": "ϒ", "name": "upsih", "point": "978", "description": "希腊字母ϒ，笔画卷曲的字形" },
     { "value": "ϖ", "name": "piv", "point": "982", "description": "希腊字母ϖ，古老的字形" },
-    { "value": " ", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
-    { "value": " ", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
-    { "value": " ", "name": "thinsp", "point": "8201", "description": "细空间" },
+    { "value": "\u2002", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
+    { "value": "\u2003", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
+    { "value": "\u2009", "name": "thinsp", "point": "8201", "description": "细空间" },
     { "value": "‌", "name": "zwnj", "point": "8204", "description": "零宽不连字" },
     { "value": "‍", "name": "zwj", "point": "8205", "description": "零宽连字" },
     { "value": "‎", "name": "lrm", "point": "8206", "description": "左到右标志" },
-- 
2.43.0


From 70d39788eeb7184c8a76c6e779418176820c2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 050/160] fix: decodeEntity does not decode its own output
 again

---
 packages/string/src/character/htmlEntities.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/character/htmlEntities.ts b/packages/string/src/character/htmlEntities.ts
index d7a2d60..c1b4ce9 100644
--- a/packages/string/src/character/htmlEntities.ts
+++ b/packages/string/src/character/htmlEntities.ts
@@ -26,6 +26,9 @@ const nR = new RegExp(`&(${htmlEntities.map(h => h.name).join('|')});`, 'g');
 /** 验证实体编号的正则表达式 */
 const pR = new RegExp(`&#(${htmlEntities.map(h => h.point).join('|')});`, 'g');
 
+/** 验证实体名称或实体编号的正则表达式 */
+const eR = new RegExp(`(?:${pR.source}|${nR.source})`, 'g');
+
 /** 验证实体字符的正则表达式 */
 const vR = new RegExp(`(${htmlEntities.map(h => h.value).join('|')})`, 'g');
 
@@ -56,7 +59,9 @@ export function decodeEntityByPoint(str: string): string {
  * @returns 返回解码的字符串
  */
 export function decodeEntity(value: string): string {
-    return decodeEntityByName(decodeEntityByPoint(value));
+    return value.replace(eR, (_, point, name) => {
+        return point ? pointValueMap[point] : nameValueMap[name];
+    });
 }
 
 /**
-- 
2.43.0


From 8c7d7b2e8c3968821c08962daf4c25103ef522dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 051/160] fix: subSpaces supports regular expressions with
 named groups

---
 packages/string/src/spaces/subSpaces.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/string/src/spaces/subSpaces.ts b/packages/string/src/spaces/subSpaces.ts
index 23e3bf3..2df0c7d 100644
--- a/packages/string/src/spaces/subSpaces.ts
+++ b/packages/string/src/spaces/subSpaces.ts
@@ -1,5 +1,5 @@
 import { source } from '@curong/regexp';
-import { isFunction } from '@curong/types';
+import { isFunction, isNumber } from '@curong/types';
 
 /** 验证所有标点符号和一个空格 */
 const punctuationReg = new RegExp(`${source.punctuation}| `);
@@ -58,8 +58,7 @@ export default function subSpaces(
 
     return value.replace(regexp, (...matches) => {
         const substring = matches[0];
-        const value = matches[matches.length - 1];
-        const index = matches[matches.length - 2];
+        const index = matches.find(v => isNumber(v)) as number;
         const leftChar = value[index - 1];
         const rightChar = value[index + substring.length];
 
-- 
2.43.0


From 9ea6f4c478b56bf0e6e7fb6548b5e2042404e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 052/160] fix: bindInside ends nested brackets at the outer
 bracket

---
 packages/string/src/inside/bindInside.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 31e95da..214d1c3 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -86,7 +86,7 @@ export default function bindInside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            [token, headToken].includes(value[i + 1]) && i++;
             continue;
         }
 
@@ -103,7 +103,7 @@ export default function bindInside(
         }
 
         // 如果括号或引号已经解析完成
-        if (isToken && --j <= 0) {
+        if (isToken && j-- <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
                 headToken = value[i + 1];
-- 
2.43.0


From 3c73b5cbaefebb43e0cbbddac14374d2669a5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 053/160] fix: bindOutside skips an escaped opening bracket
 inside brackets

---
 packages/string/src/inside/bindOutside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 76d5d59..3685ab6 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -131,7 +131,7 @@ export default function bindOutside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            [token, headToken].includes(value[i + 1]) && i++;
             continue;
         }
 
-- 
2.43.0


From 8b32186c743e21312c06ddc2223bea1d0d6c4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 054/160] fix: toSentences splits before every period, not only
 before those that differ from the last

---
 packages/string/src/sentences/toSentences.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index 7084339..1265260 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -90,7 +90,7 @@ export default function toSentences(
                 if (
                     abbreviationReg.test(w) ||
                     (!ellipsis && ellipsisReg.test(w)) ||
-                    (index === origin.length && origin.endsWith(v))
+                    (index === origin.length && $1 + v.length === value.length)
                 ) {
                     return v;
                 }
-- 
2.43.0


From f0414b1ffa7de8c672c7641275eaae3e4c09a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 055/160] fix: copySymbolicLink copies the link instead of
 linking to it

---
 packages/fs/src/copySymbolicLink.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/copySymbolicLink.ts b/packages/fs/src/copySymbolicLink.ts
index d24fa9c..f785329 100644
--- a/packages/fs/src/copySymbolicLink.ts
+++ b/packages/fs/src/copySymbolicLink.ts
@@ -2,11 +2,12 @@ import { symlink } from 'fs/promises';
 import { dirname } from 'path';
 
 import { format } from '@curong/term';
+import { isNull } from '@curong/types';
 
 import isDir from './isDir';
 import isFile from './isFile';
-import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
+import symbolicLink from './symbolicLink';
 
 const name = 'copySymbolicLink';
 
@@ -25,7 +26,9 @@ export default async function copySymbolicLink(
     toPath: string
 ): Promise<void> {
     // 如果要拷贝的内容不是符号链接
-    if (!(await isSymbolicLink(fromPath))) {
+    const target = await symbolicLink(fromPath);
+
+    if (isNull(target)) {
         throw format({
             name,
             message: 'fromPath不是一个符号链接',
@@ -51,7 +54,7 @@ export default async function copySymbolicLink(
     }
 
     // 创建符号链接
-    await symlink(fromPath, toPath, type).catch(error => {
+    await symlink(target, toPath, type).catch(error => {
         throw format({
             name,
             message: '拷贝符号链接失败，无法将fromPath拷贝到toPath',
-- 
2.43.0


From 78a80be74ea3f1eb0f9b1df822032cbd1a25dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 056/160] fix: copy copies symbolic links

---
 packages/fs/src/copy.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 5a004e1..27f9880 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -6,8 +6,8 @@ import { format } from '@curong/term';
 import copySymbolicLink from './copySymbolicLink';
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
-import symbolicLink from './symbolicLink';
 import type { CopyFileOptions } from './types';
 
 const _copyFile = async (from: string, to: string, forcibly = false) => {
@@ -56,11 +56,10 @@ export default async function copy(
 ): Promise<void> {
     const name = 'copy';
     const { forcibly = true } = options ?? {};
-    let link: string | null;
 
     // 如果源是符号链接
-    if ((link = await symbolicLink(fromPath))) {
-        return await copySymbolicLink(link, toPath);
+    if (await isSymbolicLink(fromPath)) {
+        return await copySymbolicLink(fromPath, toPath);
     }
 
     // 如果源是文件
@@ -112,8 +111,8 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if ((link = await symbolicLink(fromPath))) {
-            await copySymbolicLink(link, to);
+        if (await isSymbolicLink(from)) {
+            await copySymbolicLink(from, to);
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-- 
2.43.0


From 88e7742f47362bd493ae6ebbb38a5b4f9ec99bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 057/160] fix: copy keeps existing files in subfolders when
 forcibly is false

---
 packages/fs/src/copy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 27f9880..259db34 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -116,7 +116,7 @@ export default async function copy(
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-            await copy(from, to);
+            await copy(from, to, options);
         } else {
             throw format({
                 name,
-- 
2.43.0


From 8be7acabccc712f8bbf3d0f07ec05dd997f37843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 058/160] fix: copyFile deletes the file in its way, never the
 file it copies

---
 packages/fs/src/copyFile.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 0406444..e9ae343 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -6,6 +6,7 @@ import { isTrue } from '@curong/types';
 import deleteOne from './deleteOne';
 import destPath from './destPath';
 import diffFile from './diffFile';
+import isFile from './isFile';
 import type { CopyFileOptions } from './types';
 
 /**
@@ -48,8 +49,8 @@ export default async function copyFile(
         try {
             await promises.copyFile(filePath, destString);
         } catch (error) {
-            if (isTrue(options!.forcibly)) {
-                await deleteOne(filePath);
+            if (isTrue(options!.forcibly) && (await isFile(filePath))) {
+                await deleteOne(destString);
 
                 return await copyFile(filePath, srcDir, desDir, {
                     forcibly: false
-- 
2.43.0


From 3ae7604bc43d74aa3932a7a7b769139caab4a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 059/160] fix: deleteOne deletes symbolic links to folders and
 links without a target

---
 packages/fs/src/deleteOne.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/fs/src/deleteOne.ts b/packages/fs/src/deleteOne.ts
index 8c663aa..31a255f 100644
--- a/packages/fs/src/deleteOne.ts
+++ b/packages/fs/src/deleteOne.ts
@@ -4,6 +4,7 @@ import { format } from '@curong/term';
 
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 
 /**
  * 删除一个文件或一个文件夹
@@ -14,6 +15,10 @@ import isFile from './isFile';
  * - 如果 `pathString` 不是一个有效路径，则会抛出异常
  */
 export default async function deleteOne(pathString: string): Promise<void> {
+    if (await isSymbolicLink(pathString)) {
+        return await unlink(pathString);
+    }
+
     if (await isDir(pathString)) {
         return await rmdir(pathString, { recursive: true });
     }
-- 
2.43.0


From 5fbee89b9fe0d5ff7ddb506cc7ebc1169e8b67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 060/160] fix: mkdir creates folders that their owner can enter

---
 packages/fs/src/mkdir.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/mkdir.ts b/packages/fs/src/mkdir.ts
index 2c4c287..10971b5 100644
--- a/packages/fs/src/mkdir.ts
+++ b/packages/fs/src/mkdir.ts
@@ -10,7 +10,7 @@ import { format } from '@curong/term';
  *
  * 包括:
  * - `recursive` 指示是否应创建父文件夹，默认为 `true`
- * - `mode` 权限，默认为 `0o644`
+ * - `mode` 权限，默认为 `0o755`
  *
  * @throws
  *
@@ -23,7 +23,7 @@ export default async function mkdir(
 ): Promise<string | undefined> {
     options = {
         recursive: true,
-        mode: 0o644,
+        mode: 0o755,
         ...options
     };
 
-- 
2.43.0


From 0e0372a2a60bb57b0714e55a80fca81ddb44c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 061/160] fix: diffFile distinguishes files that differ in
 trailing zero bytes

---
 packages/fs/src/diffFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 2cb11f7..db90e5e 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -24,7 +24,7 @@ export default async function diffFile(
         const buffer = Buffer.alloc(highWorkMark);
         const readBytes = readSync(fd, buffer, 0, highWorkMark, position);
 
-        return isZero(readBytes) ? null : buffer;
+        return isZero(readBytes) ? null : buffer.subarray(0, readBytes);
     };
 
     const fileHandle1 = await open(pathString1, 'r').catch(() => null);
-- 
2.43.0


From 3afd191cb47c58a9f3c2d0bd00ed807664e7b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 062/160] fix: readLnk throws where it cannot resolve
 shortcuts, instead of returning an error as the path

---
 packages/fs/src/readLnk.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 3bd2d50..0b480ae 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -29,7 +29,7 @@ export default async function readLnk(pathString: string): Promise<string> {
     pathString = normalize(pathString);
 
     if (platform !== 'win32') {
-        return format({
+        throw format({
             name: 'readLnk',
             message: '无法解析不是 ".lnk" 后缀的文件',
             data: { pathString }
-- 
2.43.0


From 5c3920d314602bb13c45f04269e7200e0b375f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 063/160] fix: readline splits buffers into lines

---
 packages/fs/src/readline.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/readline.ts b/packages/fs/src/readline.ts
index b6bf366..44f2c0b 100644
--- a/packages/fs/src/readline.ts
+++ b/packages/fs/src/readline.ts
@@ -40,8 +40,8 @@ export default function readline(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            chunk = chunk.toString((encoding ?? 'utf8') as BufferEncoding);
+            toString = data => data.join('');
             break;
         }
 
-- 
2.43.0


From 483ece4f00c472bed3c35a8f1d6a89346c153716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 064/160] fix: readlineFromCode splits buffers into lines

---
 packages/fs/src/readlineFromCode.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/readlineFromCode.ts b/packages/fs/src/readlineFromCode.ts
index 684c10a..ab2d2ba 100644
--- a/packages/fs/src/readlineFromCode.ts
+++ b/packages/fs/src/readlineFromCode.ts
@@ -98,8 +98,8 @@ export default function readlineFromCode(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            chunk = chunk.toString((encoding ?? 'utf8') as BufferEncoding);
+            toString = data => data.join('');
             break;
         }
 
-- 
2.43.0


From 043ec580edef45385638230d53ffdd3198cf7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 065/160] fix: readFragment returns the first line when only
 that is asked for

---
 packages/fs/src/readFragment.ts | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/packages/fs/src/readFragment.ts b/packages/fs/src/readFragment.ts
index 37144ff..d11dc5d 100644
--- a/packages/fs/src/readFragment.ts
+++ b/packages/fs/src/readFragment.ts
@@ -48,15 +48,11 @@ export default function readFragment(
 
             readStream.on('error', error => reject(error));
 
-            readStream.on('data', chunk => {
-                if (firstLine) {
-                    return chunk;
-                }
+            readStream.on('data', chunk => (data += chunk));
 
-                return (data += chunk);
-            });
-
-            readStream.on('end', () => resolve(data));
+            readStream.on('end', () =>
+                resolve(firstLine ? data.split(/\r\n|\r|\n/, 1)[0] : data)
+            );
         } else {
             return resolve();
         }
-- 
2.43.0


From 84f53866607213294deb94c4acf5d729b45ded35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 066/160] fix: diffFile closes both files when reading fails

---
 packages/fs/src/diffFile.ts | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index db90e5e..61237fe 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -43,27 +43,29 @@ export default async function diffFile(
     const fd1 = fileHandle1.fd;
     const fd2 = fileHandle2.fd;
 
-    while (true) {
-        const chunk1 = await readChunk(fd1);
-        const chunk2 = await readChunk(fd2);
-        const nullChunk1 = isNull(chunk1);
-        const nullChunk2 = isNull(chunk2);
-
-        if (nullChunk1 && nullChunk2) {
-            break;
-        }
-
-        if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
-            compared = false;
-            break;
+    try {
+        while (true) {
+            const chunk1 = await readChunk(fd1);
+            const chunk2 = await readChunk(fd2);
+            const nullChunk1 = isNull(chunk1);
+            const nullChunk2 = isNull(chunk2);
+
+            if (nullChunk1 && nullChunk2) {
+                break;
+            }
+
+            if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
+                compared = false;
+                break;
+            }
+
+            position += highWorkMark;
         }
-
-        position += highWorkMark;
+    } finally {
+        // 关闭文件描述符
+        await fileHandle1.close();
+        await fileHandle2.close();
     }
 
-    // 关闭文件描述符
-    await fileHandle1.close();
-    await fileHandle2.close();
-
     return compared;
 }
-- 
2.43.0


From dfd3a003369b8a6e2a7120260495d91ffe042ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 067/160] fix: readlineStream reads files it may not write and
 rejects when reading fails

---
 packages/fs/src/readlineStream.ts | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 1f8489c..851be7b 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -51,16 +51,17 @@ export default async function readlineStream(
         }
     }
 
-    return new Promise(resolve => {
-        const stream = createInterface({
-            input: createReadStream(pathString, {
-                encoding: encoding as BufferEncoding,
-                flags: 'r+',
-                mode: 0o755,
-                autoClose: true,
-                highWaterMark: 64 * 1024
-            })
+    return new Promise((resolve, reject) => {
+        const input = createReadStream(pathString, {
+            encoding: encoding as BufferEncoding,
+            flags: 'r',
+            mode: 0o755,
+            autoClose: true,
+            highWaterMark: 64 * 1024
         });
+        const stream = createInterface({ input });
+
+        input.once('error', reject);
 
         stream.on('line', callback as ReadlineStreamCallback);
 
-- 
2.43.0


From 9ecffae5acf881102a0fd244e273fabd5ab421f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 068/160] fix: readlineStream does not split a line break that
 arrives in two parts

---
 packages/fs/src/readlineStream.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 851be7b..101a466 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -59,7 +59,7 @@ export default async function readlineStream(
             autoClose: true,
             highWaterMark: 64 * 1024
         });
-        const stream = createInterface({ input });
+        const stream = createInterface({ input, crlfDelay: Infinity });
 
         input.once('error', reject);
 
-- 
2.43.0


From b8fb17ec53ca682f30cc7ace6aeb1d4048ac50a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 069/160] fix: readlineStream returns an empty array for an
 empty file

---
 packages/fs/src/readlineStream.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 101a466..89f7ff3 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -40,12 +40,14 @@ export default async function readlineStream(
     }
 
     const ret: string[] = [];
+    let collect = false;
 
     if (!isFunctionFilled(callback)) {
         if (isFunctionFilled(encoding)) {
             callback = encoding;
             encoding = 'utf8';
         } else {
+            collect = true;
             callback = (input: string) => ret.push(input);
             encoding = encoding ?? 'utf8';
         }
@@ -68,11 +70,7 @@ export default async function readlineStream(
         stream.once('close', () => {
             stream.removeAllListeners();
 
-            if (ret.length > 0) {
-                return resolve(ret);
-            }
-
-            return resolve(true);
+            return resolve(collect ? ret : true);
         });
     });
 }
-- 
2.43.0


From 77a5d1cc189c92d81021b4ea9338ec9bc8671d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 070/160] fix: readlineStream rejects when the file cannot be
 opened, instead of ending the process

---
 packages/fs/src/readlineStream.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 89f7ff3..51a5ef4 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -64,6 +64,7 @@ export default async function readlineStream(
         const stream = createInterface({ input, crlfDelay: Infinity });
 
         input.once('error', reject);
+        stream.once('error', reject);
 
         stream.on('line', callback as ReadlineStreamCallback);
 
-- 
2.43.0


From 1fe48bdb972035c8246933262fed2c201a4b7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 071/160] fix: writeFile writes empty objects and arrays as
 JSON

---
 packages/fs/src/writeFile.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/writeFile.ts b/packages/fs/src/writeFile.ts
index 65f8685..6a780bd 100644
--- a/packages/fs/src/writeFile.ts
+++ b/packages/fs/src/writeFile.ts
@@ -2,7 +2,7 @@ import { promises } from 'fs';
 import { dirname } from 'path';
 
 import { format } from '@curong/term';
-import { isArrayFilled, isObjectFilled } from '@curong/types';
+import { isArray, isObject } from '@curong/types';
 
 import mkdir from './mkdir';
 import type { WriteFileOptions } from './types';
@@ -40,7 +40,7 @@ export default async function writeFile(
         ...options
     };
 
-    if (options.isFormat && (isObjectFilled(data) || isArrayFilled(data))) {
+    if (options.isFormat && (isObject(data) || isArray(data))) {
         try {
             data = JSON.stringify(data);
         } catch (error) {
-- 
2.43.0


From 06ec58f80295aa3c681b1890ef0647b7b938e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 072/160] fix: spawn quotes brackets and braces for the shell

---
 packages/process/src/spawn.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index cd9b070..b7bd66d 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -58,7 +58,7 @@ const escapeSh = (input: string): string => {
         return `''`;
     }
 
-    if (!/[\r\n\t '"`#$&~*;?|()<>\\]/.test(input)) {
+    if (!/[\r\n\t '"`#$&~*;?|()<>\\[\]{}]/.test(input)) {
         return input;
     }
 
-- 
2.43.0


From 6e876e0e6ace122311dbb996615c9cf7923a3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:25 +0000
Subject: [PATCH 073/160] fix: spawn with invalid arguments only rejects,
 without an uncaught exception

---
 packages/process/src/spawn.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index b7bd66d..a532989 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -256,8 +256,9 @@ export default function spawn(
     }) as SpawnResult;
 
     setTimeout(() => {
-        child.stdin = handler!.stdin;
-        child.process = handler!;
+        // 如果进程未能创建（比如传递了无效的参数），则没有可用的子进程
+        child.stdin = handler?.stdin ?? null;
+        child.process = handler ?? null;
     });
 
     return child;
-- 
2.43.0


From 5911363136acf53e3a0a4c4210c3b6db9558a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 074/160] fix: kill signals every process of the tree once

---
 packages/os/src/kill.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 1a10c16..159786b 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -26,8 +26,10 @@ const killAll = (
     const killed = new Set();
 
     try {
-        Object.keys(tree).forEach(pid => {
-            tree[+pid].forEach(p => {
+        Object.keys(tree).forEach(key => {
+            const pid = +key;
+
+            tree[pid].forEach(p => {
                 if (!killed.has(p)) {
                     killPid(p, signal);
                     killed.add(p);
@@ -35,7 +37,7 @@ const killAll = (
             });
 
             if (!killed.has(pid)) {
-                killPid(+pid, signal);
+                killPid(pid, signal);
                 killed.add(pid);
             }
         });
-- 
2.43.0


From 86baccbbe27a1c861723d2f60eca59d961832c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 075/160] fix: killWindowsTask returns true when the task was
 ended

---
 packages/os/src/windows/killTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/killTask.ts b/packages/os/src/windows/killTask.ts
index 668785b..291dd88 100644
--- a/packages/os/src/windows/killTask.ts
+++ b/packages/os/src/windows/killTask.ts
@@ -19,5 +19,5 @@ export default async function killWindowsTask(
     const command = ['taskkill', '/F', '/T', '/IM', `"${imageName}"`];
     const executed = await exec(command).catch(() => ({ stderr: 'error' }));
 
-    return executed.stderr.length > 0;
+    return executed.stderr.length === 0;
 }
-- 
2.43.0


From a6e15e0ea159bfda0c6067b558155b3e19f695b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 076/160] fix: windowsMakeShortcut throws on other systems

---
 packages/os/src/windows/makeShortcut.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/makeShortcut.ts b/packages/os/src/windows/makeShortcut.ts
index 01492fc..f6d8a3e 100644
--- a/packages/os/src/windows/makeShortcut.ts
+++ b/packages/os/src/windows/makeShortcut.ts
@@ -85,7 +85,7 @@ export default async function windowsMakeShortcut(
     options?: ShortcutOptions
 ) {
     if (!isWindows) {
-        return new Error(
+        throw new Error(
             '[windowsMakeShortcut]: 当前不是 Windows 系统，无法执行操作'
         );
     }
-- 
2.43.0


From 5dd1a675a3ae319071b92debf92140ba063c98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 077/160] fix: windowsTaskList lists tasks that fill a column

---
 packages/os/src/windows/taskList.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/os/src/windows/taskList.ts b/packages/os/src/windows/taskList.ts
index dcfc2ac..55f6ebf 100644
--- a/packages/os/src/windows/taskList.ts
+++ b/packages/os/src/windows/taskList.ts
@@ -38,9 +38,10 @@ export default async function windowsTaskList(): Promise<WindowsTaskListResult>
     const taskSplit = stdout.toString().trim().split('\n');
 
     return taskSplit.map((task: string) => {
-        const splitChunk = task.trim().split(/\s{2,}/);
-        const [imageName, pidAndSession, sessionId, mem] = splitChunk;
-        const [pid, sessionName] = pidAndSession.split(/ /);
+        // 列与列之间可能只有一个空格(比如内存占用较大时)
+        const [, imageName, pid, sessionName, sessionId, mem] = task
+            .trim()
+            .match(/^(.*?)\s+(\d+)\s+(?:(\S+)\s+)?(\d+)\s+(\d.*)$/)!;
         const memusage = mem.split(' ')[0].replace(/,/g, '');
         const session = { name: sessionName, id: sessionId };
 
-- 
2.43.0


From ba940b011e4672776a349a98b58436441f9a4d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 078/160] fix: redirects leave the options of the caller
 unchanged

---
 packages/request/src/request/request.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8a7c0ab..cbc8967 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -211,8 +211,8 @@ export default async function request(
                 // 销毁当前请求
                 req.destroy();
 
-                // 消耗一次重定向请求
-                options.maxRedirects = maxRedirects - 1;
+                // 消耗一次重定向请求。不能修改用户传递的配置对象
+                options = { ...options, maxRedirects: maxRedirects - 1 };
 
                 // 对请求头的处理
                 const redirectHost = new URL(locationUrl).hostname;
-- 
2.43.0


From 5466b17c5dfe8f04489927f761835e477f4198ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 079/160] fix: request follows relative redirects and rejects
 when a redirect is invalid

---
 packages/request/src/request/request.ts | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index cbc8967..35eafb6 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -214,8 +214,24 @@ export default async function request(
                 // 消耗一次重定向请求。不能修改用户传递的配置对象
                 options = { ...options, maxRedirects: maxRedirects - 1 };
 
+                // 重定向的地址可能是相对的，也可能是无效的
+                let redirectUrl: URL;
+
+                try {
+                    redirectUrl = new URL(
+                        locationUrl,
+                        `${req.protocol}//${config.hostname}:${config.port ?? ''}${config.path}`
+                    );
+                } catch (error) {
+                    return reject(
+                        new Error('[request] 重定向的地址无效', {
+                            cause: { request: req, config, error }
+                        })
+                    );
+                }
+
                 // 对请求头的处理
-                const redirectHost = new URL(locationUrl).hostname;
+                const redirectHost = redirectUrl.hostname;
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
                 deleteOptionsAttr(options, [
@@ -255,7 +271,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options));
+                return resolve(request(redirectUrl.href, options));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From 356bf6c7ac0c1773a5a363db3d0c650faa8b8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 080/160] fix: request sends no body after a POST is redirected
 as GET

---
 packages/request/src/request/request.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 35eafb6..db2e668 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -265,6 +265,7 @@ export default async function request(
                     /^30[12]$/.test(`${res.statusCode}`)
                 ) {
                     options.method = 'GET';
+                    deleteOptionsAttr(options, ['body']);
                     deleteOptionsAttr(options.headers, [
                         'content-length',
                         'content-type'
-- 
2.43.0


From 5eaf05772dbf8236c3d8db1648691103552b66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 081/160] fix: request rejects with the failed result instead
 of a promise

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index db2e668..b55139a 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -314,7 +314,7 @@ export default async function request(
             });
 
             serialStream.on('end', () => resolve(returns()));
-            serialStream.on('error', e => reject(returns(e)));
+            serialStream.on('error', e => returns(e).then(reject));
         });
 
         req.on('timeout', () => {
-- 
2.43.0


From f990f53050de5cf88348ca10f4d68c3abeeaff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 082/160] fix: request accepts URL objects

---
 packages/request/src/request/options.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 94bdcd0..bbc4c50 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -13,7 +13,8 @@ import {
     isObjectFilled,
     isStringFilled,
     isTrue,
-    isTypeofObject
+    isTypeofObject,
+    isURL
 } from '@curong/types';
 
 import type { Methods, RequestOptions } from '../types';
@@ -144,7 +145,7 @@ export const deleteOptionsAttr = <T extends Record<PropertyKey, any>>(
  * @param baseUrl 基本的 URL
  * @param options 请求选项
  */
-const urlToParams = (baseUrl: string, options: RequestOptions) => {
+const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     let urlParams;
 
     try {
@@ -193,7 +194,7 @@ export const optionsHandler = (
     // 添加通用请求头
     options.headers = toLowerCaseKey({ ...commonHeaders, ...options.headers });
 
-    if (isStringFilled(baseUrl)) {
+    if (isStringFilled(baseUrl) || isURL(baseUrl)) {
         urlToParams(baseUrl, options);
     }
 
-- 
2.43.0


From 08b0e666bd5d0d2b4e8a83785f78575fee2fc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 083/160] fix: request decodes the credentials of the URL

---
 packages/request/src/request/options.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index bbc4c50..ecade29 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -174,7 +174,9 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-        username && password ? `${username}:${password}` : undefined;
+        username && password
+            ? decodeURIComponent(`${username}:${password}`)
+            : undefined;
 };
 
 export const optionsHandler = (
-- 
2.43.0


From 65f6a13c0ac7825369823c8863feccb1ea949bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 084/160] fix: objectToFormData keeps the items of nested
 arrays

---
 packages/request/src/request/formData.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/formData.ts b/packages/request/src/request/formData.ts
index 3e3f252..6dbab9e 100644
--- a/packages/request/src/request/formData.ts
+++ b/packages/request/src/request/formData.ts
@@ -128,7 +128,7 @@ export function objectToFormData(
                 ? `${arrayKeyPrefix}[${index}]`
                 : `${parentKey}[${index}]`;
 
-            if (isPlainObject(value)) {
+            if (isPlainObject(value) || isArray(value)) {
                 objectToFormData(value, {
                     arrayKeyPrefix,
                     parentKey: key,
@@ -145,7 +145,7 @@ export function objectToFormData(
     for (const [key, value] of Object.entries(object)) {
         const nestedKey = parentKey ? `${parentKey}.${key}` : key;
 
-        if (isPlainObject(value)) {
+        if (isPlainObject(value) || isArray(value)) {
             objectToFormData(value as NestedObject, {
                 arrayKeyPrefix,
                 parentKey: nestedKey,
-- 
2.43.0


From 6ff26230b799282e33ac5212555d4f9968b36ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 085/160] fix: request calls no handler after the data handler
 ended the transfer

---
 packages/request/src/request/request.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index b55139a..6ee3603 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -307,6 +307,8 @@ export default async function request(
             /** 接收响应体 */
             serialStream.on('data', (chunk: Buffer) => {
                 if (handlers.data && handlers.data(chunk, res, config)) {
+                    // 不再接收剩余的(解压后的)数据
+                    serialStream.destroy();
                     return resolve(returns());
                 }
 
-- 
2.43.0


From d20883c3f4c69af6a1df5019176ee8cc80a8518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 086/160] fix: isWindowsPath answers for any path in linear
 time, and allows names that start with a reserved one

---
 packages/path/src/isWindowsPath.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/path/src/isWindowsPath.ts b/packages/path/src/isWindowsPath.ts
index b771e71..6e5f2ea 100644
--- a/packages/path/src/isWindowsPath.ts
+++ b/packages/path/src/isWindowsPath.ts
@@ -1,5 +1,3 @@
-import windowsPathSource from './windowsPathSource';
-
 /**
  * 是否为合法的 `Windows` 路径地址
  *
@@ -29,10 +27,11 @@ import windowsPathSource from './windowsPathSource';
  * - 最大单个文件名为最大路径长度减 `12`
  */
 export default function isWindowsPath(path: string, extend: boolean = false) {
-    const reg = new RegExp(`^${windowsPathSource}$`);
+    // 驱动器号(可带长路径前缀)或者相对路径，末尾不能是空白或句号。名称组件在后面逐个验证
+    const reg = /^(?:(?:\\\\\?\\)?[a-zA-Z]:|\.{1,2})\\(?:.*[^.\s])?$/;
     const size = extend ? 32767 : 260;
     const dirNoReg = /^(CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])$/;
-    const dirSearchReg = /[<>:"/\\|?*]/g;
+    const dirSearchReg = /[<>:"/\\|?*]/;
 
     if (!reg.test(path) || path.length > size) {
         return false;
-- 
2.43.0


From 7a878f5c8a1dbf26ce2d9077847de02b212d0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 087/160] fix: isWindowsExtendedLengthPath accepts paths of
 extended length

---
 packages/path/src/isWindowsExtendedLengthPath.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/path/src/isWindowsExtendedLengthPath.ts b/packages/path/src/isWindowsExtendedLengthPath.ts
index b9c19df..d777d41 100644
--- a/packages/path/src/isWindowsExtendedLengthPath.ts
+++ b/packages/path/src/isWindowsExtendedLengthPath.ts
@@ -10,5 +10,5 @@ import isWindowsPath from './isWindowsPath';
 export default function isWindowsExtendedLengthPath(
     pathString: string
 ): boolean {
-    return isWindowsPath(pathString) && pathString.startsWith('\\\\?\\');
+    return isWindowsPath(pathString, true) && pathString.startsWith('\\\\?\\');
 }
-- 
2.43.0


From 605940bbf07f186f29f14ad11960faea75363881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 088/160] fix: normalize expands ~ before resolving parent
 folders

---
 packages/path/src/normalize.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/path/src/normalize.ts b/packages/path/src/normalize.ts
index 1db41fa..c0e25a8 100644
--- a/packages/path/src/normalize.ts
+++ b/packages/path/src/normalize.ts
@@ -17,5 +17,8 @@ const homeDirectory = homedir();
  * @throw 如果 pathString 不是有效的路径字符串，则会抛出异常
  */
 export default function normalize(pathString: string): string {
-    return _normalize(pathString).replace(/^~(?=$|\/|\\)/, homeDirectory);
+    // 先替换 `~`，否则 `~/..` 会被错误的解析
+    return _normalize(
+        pathString.replace(/^~(?=$|\/|\\)/, () => homeDirectory)
+    );
 }
-- 
2.43.0


From b97dfa42f836066d10f2e2d5f130c2908f428212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 089/160] fix: ansiFormat resets rapidBlink with 25, as 26
 leaves it on

---
 packages/term/src/ansiFormat.ts | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/packages/term/src/ansiFormat.ts b/packages/term/src/ansiFormat.ts
index 570a58d..87baba7 100644
--- a/packages/term/src/ansiFormat.ts
+++ b/packages/term/src/ansiFormat.ts
@@ -65,15 +65,18 @@ export default function ansiFormat(
             case 'bold':
                 // `22` 和 `21` 的作用相同
                 resetAppend++;
-
-            default:
-                if (isTrue(value)) {
-                    setColor.push(i + 1);
-                    resetColor.push(i + resetAppend);
-                } else if (isFalse(value)) {
-                    resetColor.push(i + resetAppend);
-                }
                 break;
+            case 'rapidBlink':
+                // 没有单独的重置代码，和 `blink` 共用 `25`
+                resetAppend--;
+                break;
+        }
+
+        if (isTrue(value)) {
+            setColor.push(i + 1);
+            resetColor.push(i + resetAppend);
+        } else if (isFalse(value)) {
+            resetColor.push(i + resetAppend);
         }
     }
 
-- 
2.43.0


From 910dcef5508a14e9a4363ed0cdeb51942ccfcc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 090/160] fix: line wrap sequences are private modes

---
 packages/term/src/sequence/base.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/sequence/base.ts b/packages/term/src/sequence/base.ts
index a170e33..9c28bc4 100644
--- a/packages/term/src/sequence/base.ts
+++ b/packages/term/src/sequence/base.ts
@@ -18,10 +18,10 @@ export const restoreCursorAndAttr = `${ESC}8`;
 export const ResetDevice = `${ESC}c`;
 
 /** 如果文本长于显示区域的长度，则文本将自动换行到下一行 */
-export const lineWrapOpen = `${CSI}7h`;
+export const lineWrapOpen = `${CSI}?7h`;
 
 /** 禁用自动换行 */
-export const lineWrapClose = `${CSI}7l`;
+export const lineWrapClose = `${CSI}?7l`;
 
 /** 恢复为默认字体 */
 export const restoreFont = `${ESC}(`;
-- 
2.43.0


From 075379a040788b47ef595d8f4c83e603a7713fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 091/160] fix: restoreFont is complete and no longer swallows
 the next character

---
 packages/term/src/sequence/base.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/term/src/sequence/base.ts b/packages/term/src/sequence/base.ts
index 9c28bc4..c957a94 100644
--- a/packages/term/src/sequence/base.ts
+++ b/packages/term/src/sequence/base.ts
@@ -24,4 +24,4 @@ export const lineWrapOpen = `${CSI}?7h`;
 export const lineWrapClose = `${CSI}?7l`;
 
 /** 恢复为默认字体 */
-export const restoreFont = `${ESC}(`;
+export const restoreFont = `${ESC}(B`;
-- 
2.43.0


From 116d6493785ef2519be057f07dd0f27859cc26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 092/160] fix: cursorOnLineBegin stays on the current line at
 the top of the screen

---
 packages/term/src/sequence/cursor.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/term/src/sequence/cursor.ts b/packages/term/src/sequence/cursor.ts
index 620887a..c3c29b2 100644
--- a/packages/term/src/sequence/cursor.ts
+++ b/packages/term/src/sequence/cursor.ts
@@ -66,4 +66,4 @@ export const cursorHidden = `${CSI}?25l`;
 export const cursorShow = `${CSI}?25h`;
 
 /** 跳转到当前行的开头 */
-export const cursorOnLineBegin = `${CSI}A${CSI}E`;
+export const cursorOnLineBegin = `${CSI}G`;
-- 
2.43.0


From d97a43a0bc1f7fb4feed8c6d4f9e91071c83d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 093/160] fix: ProgressBar is complete at the total, not one
 push after it

---
 packages/term/src/progressBar.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 41ac71d..11d8c4b 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -10,7 +10,7 @@ import {
 } from './sequence';
 import type { ProgressBarOptions } from './types';
 
-/** 相当于: `\u001B[A\u001B[E\u001B[K` */
+/** 相当于: `\u001B[G\u001B[K` */
 const clearLine = () => cursorOnLineBegin + eraseLine();
 
 /**
@@ -69,7 +69,7 @@ export default class ProgressBar {
         };
 
         this.options = options;
-        this.index = -1;
+        this.index = 0;
         this.record = [];
         this.reset();
     }
@@ -80,7 +80,7 @@ export default class ProgressBar {
             this.options;
 
         const bars = [];
-        const lastIndex = this.index + 1;
+        const lastIndex = this.index;
 
         if (isUintSafe(total)) {
             // 有限
-- 
2.43.0


From 5cdff668978a1891279a1a1556b50b6731e6d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 094/160] fix: ProgressBar percentage without rounding errors
 and for a total of 0

---
 packages/term/src/progressBar.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 11d8c4b..7f62f5c 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -74,6 +74,13 @@ export default class ProgressBar {
         this.reset();
     }
 
+    /** 当前进度所占的份数，总数为 `0` 时视为已完成 */
+    private ratio(parts: number): number {
+        const { total } = this.options;
+
+        return total ? Math.floor((this.index * parts) / total) : parts;
+    }
+
     /** 重置进度条 */
     private reset(): void {
         const { total, percentage, count, picture, hiddenCursor } =
@@ -85,13 +92,13 @@ export default class ProgressBar {
         if (isUintSafe(total)) {
             // 有限
             if (picture) {
-                const finish = Math.floor((lastIndex / total!) * 10);
+                const finish = this.ratio(10);
                 const text = '#'.repeat(finish).padEnd(10, ' ');
                 bars.push(`[${text}]`);
             }
 
             if (percentage) {
-                const number = Math.floor((lastIndex / total!) * 100);
+                const number = this.ratio(100);
                 bars.push(`${number}%`);
             }
 
-- 
2.43.0


From 64a17f58c127cf5a55984adc5e9d4f14f1780361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 095/160] fix: format prints a % in the title as it is

---
 packages/term/src/format.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/format.ts b/packages/term/src/format.ts
index 655f550..89b90b7 100644
--- a/packages/term/src/format.ts
+++ b/packages/term/src/format.ts
@@ -1,9 +1,10 @@
-import { formatWithOptions } from 'util';
+import { inspect } from 'util';
 
 import {
     isEqual,
     isNumber,
     isObjectFilled,
+    isString,
     isStringFilled,
     isZero
 } from '@curong/types';
@@ -244,5 +245,7 @@ export default function format(info: ForMatInfo, options?: ForMatOptions) {
         styleText.push(LF);
     }
 
-    return formatWithOptions({ ...options }, ...styleText);
+    return styleText
+        .map(text => (isString(text) ? text : inspect(text, { ...options })))
+        .join(' ');
 }
-- 
2.43.0


From 1384a42550c0a449e959eb42ff18c1b8db2a337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 096/160] fix: colorCode24bit rejects arrays with holes

---
 packages/term/src/colorCode24bit.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/colorCode24bit.ts b/packages/term/src/colorCode24bit.ts
index 8270ed5..837f5f4 100644
--- a/packages/term/src/colorCode24bit.ts
+++ b/packages/term/src/colorCode24bit.ts
@@ -31,13 +31,13 @@ export default function colorCode24bit(colorCodes: number[]): ColorCodeResult {
         );
     }
 
-    colorCodes.forEach(colorCode => {
+    for (const colorCode of colorCodes) {
         if (!isUintSafe(colorCode) || colorCode < 0 || colorCode > 255) {
             throw new TypeError(
                 `[colorCode24bit]: colorCode不是一个有效数字, "${colorCode}"`
             );
         }
-    });
+    }
 
     const code = colorCodes.join(';');
 
-- 
2.43.0


From 3a13f054ddd46752a0c78fb64d1d77bce0b55c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 097/160] fix: isArrayLike counts index keys only

---
 packages/types/src/array/isArrayLike.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/array/isArrayLike.ts b/packages/types/src/array/isArrayLike.ts
index 40889f9..992d33e 100644
--- a/packages/types/src/array/isArrayLike.ts
+++ b/packages/types/src/array/isArrayLike.ts
@@ -49,7 +49,10 @@ export default function isArrayLike<T = unknown>(
     }
 
     const keys = Object.keys(value);
-    const nkl = keys.map(Number).filter(isArrayIndex).length;
+    // 排除 `''`、`01`、`1e3` 等可以转换为数字但不是索引的 `key`
+    const nkl = keys.filter(
+        key => isArrayIndex(Number(key)) && String(Number(key)) === key
+    ).length;
 
     if (!isSparse) {
         for (let i = 0, len = nkl; i < len; i++) {
-- 
2.43.0


From 3e8422aea10698f77ec682fe9f0602f381f52103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 098/160] fix: isEvery gives the predicates the value alone, as
 isSome does

---
 packages/types/src/cmp/isEvery.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/cmp/isEvery.ts b/packages/types/src/cmp/isEvery.ts
index 26c518f..5558ca2 100644
--- a/packages/types/src/cmp/isEvery.ts
+++ b/packages/types/src/cmp/isEvery.ts
@@ -17,5 +17,5 @@ export default function isEvery<V, P extends (value: V) => boolean>(
     predicate: P | P[]
 ): value is V {
     const v = [value].flat() as V[];
-    return [predicate].flat().every(f => v.every(f));
+    return [predicate].flat().every(f => v.every(i => f(i)));
 }
-- 
2.43.0


From a3bc7211296ed32c4f1598ff8a29f2ad8b691547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 099/160] fix: isDateValid is false for values that cannot be
 converted

---
 packages/types/src/date/isDateValid.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/date/isDateValid.ts b/packages/types/src/date/isDateValid.ts
index 6eef625..9da0161 100644
--- a/packages/types/src/date/isDateValid.ts
+++ b/packages/types/src/date/isDateValid.ts
@@ -17,5 +17,9 @@ import isUndefined from '../nullable/isUndefined';
 export default function isDateValid<T = number | string | unknown[] | Date>(
     value: unknown
 ): value is T {
-    return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    try {
+        return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From 06258d07eada54cd196ed6e9e8e5b9be7ae7bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 100/160] fix: isNumberValid is false for values that cannot be
 converted

---
 packages/types/src/number/isNumberValid.ts | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/packages/types/src/number/isNumberValid.ts b/packages/types/src/number/isNumberValid.ts
index 3d404e3..9ba3a97 100644
--- a/packages/types/src/number/isNumberValid.ts
+++ b/packages/types/src/number/isNumberValid.ts
@@ -88,12 +88,16 @@ export default function isNumberValid(
         allowEmptyString = false
     } = options;
 
-    return (
-        (implicit
-            ? !isUndefined(value)
-            : isNumber(value, allowNaN) ||
-              (isString(value) && (allowEmptyString || value.trim() !== ''))) &&
-        (allowNaN || !isNaN(Number(value).valueOf())) &&
-        (allowInfinity || !isInfinity(Number(value).valueOf()))
-    );
+    try {
+        return (
+            (implicit
+                ? !isUndefined(value)
+                : isNumber(value, allowNaN) ||
+                  (isString(value) && (allowEmptyString || value.trim() !== ''))) &&
+            (allowNaN || !isNaN(Number(value).valueOf())) &&
+            (allowInfinity || !isInfinity(Number(value).valueOf()))
+        );
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From 7b974ae3262eed9e2589e216bc533bc30722929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 101/160] fix: error predicates do not throw for errors without
 prototype

---
 packages/types/src/error/isAggregateError.ts | 2 +-
 packages/types/src/error/isError.ts          | 2 +-
 packages/types/src/error/isEvalError.ts      | 2 +-
 packages/types/src/error/isRangeError.ts     | 2 +-
 packages/types/src/error/isReferenceError.ts | 2 +-
 packages/types/src/error/isSyntaxError.ts    | 2 +-
 packages/types/src/error/isTypeError.ts      | 2 +-
 packages/types/src/error/isURIError.ts       | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/types/src/error/isAggregateError.ts b/packages/types/src/error/isAggregateError.ts
index bd94887..e428c93 100644
--- a/packages/types/src/error/isAggregateError.ts
+++ b/packages/types/src/error/isAggregateError.ts
@@ -13,6 +13,6 @@ import isAnyError from './isAnyError';
 export default function isAggregateError(value: unknown): value is EvalError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'AggregateError'
+        Object.getPrototypeOf(value)?.name === 'AggregateError'
     );
 }
diff --git a/packages/types/src/error/isError.ts b/packages/types/src/error/isError.ts
index 28a13b4..4780c04 100644
--- a/packages/types/src/error/isError.ts
+++ b/packages/types/src/error/isError.ts
@@ -10,6 +10,6 @@ import getTagEqual from '../type/getTagEqual';
 export default function isError(value: unknown): value is Error {
     return (
         getTagEqual(value, 'Error') &&
-        Object.getPrototypeOf(value).name === 'Error'
+        Object.getPrototypeOf(value)?.name === 'Error'
     );
 }
diff --git a/packages/types/src/error/isEvalError.ts b/packages/types/src/error/isEvalError.ts
index cf74ba7..825caef 100644
--- a/packages/types/src/error/isEvalError.ts
+++ b/packages/types/src/error/isEvalError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isEvalError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'EvalError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'EvalError'
     );
 }
diff --git a/packages/types/src/error/isRangeError.ts b/packages/types/src/error/isRangeError.ts
index 529b21a..d1fe900 100644
--- a/packages/types/src/error/isRangeError.ts
+++ b/packages/types/src/error/isRangeError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isRangeError(value: unknown): value is RangeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'RangeError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'RangeError'
     );
 }
diff --git a/packages/types/src/error/isReferenceError.ts b/packages/types/src/error/isReferenceError.ts
index d5bcb01..7ace1ea 100644
--- a/packages/types/src/error/isReferenceError.ts
+++ b/packages/types/src/error/isReferenceError.ts
@@ -11,6 +11,6 @@ export default function isReferenceError(
 ): value is ReferenceError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'ReferenceError'
+        Object.getPrototypeOf(value)?.name === 'ReferenceError'
     );
 }
diff --git a/packages/types/src/error/isSyntaxError.ts b/packages/types/src/error/isSyntaxError.ts
index e8be054..4dc6892 100644
--- a/packages/types/src/error/isSyntaxError.ts
+++ b/packages/types/src/error/isSyntaxError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isSyntaxError(value: unknown): value is SyntaxError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'SyntaxError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'SyntaxError'
     );
 }
diff --git a/packages/types/src/error/isTypeError.ts b/packages/types/src/error/isTypeError.ts
index f1e19be..8a02941 100644
--- a/packages/types/src/error/isTypeError.ts
+++ b/packages/types/src/error/isTypeError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isTypeError(value: unknown): value is TypeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'TypeError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'TypeError'
     );
 }
diff --git a/packages/types/src/error/isURIError.ts b/packages/types/src/error/isURIError.ts
index cbf9b00..3a9e893 100644
--- a/packages/types/src/error/isURIError.ts
+++ b/packages/types/src/error/isURIError.ts
@@ -12,6 +12,6 @@ import isAnyError from './isAnyError';
  */
 export default function isURIError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'URIError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'URIError'
     );
 }
-- 
2.43.0


From f981b1024231b82a3a946dca42ecb7288dc25e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 102/160] fix: isNativeFunction compares the name as text, not
 as a pattern

---
 packages/types/src/function/isNativeFunction.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/types/src/function/isNativeFunction.ts b/packages/types/src/function/isNativeFunction.ts
index cf50889..f762081 100644
--- a/packages/types/src/function/isNativeFunction.ts
+++ b/packages/types/src/function/isNativeFunction.ts
@@ -19,8 +19,7 @@ export default function isNativeFunction<
         // 确保该函数没有被人为修改
         isNativeFunctionToString &&
         // 结果只能是特定的字符串
-        new RegExp(
-            `^function ${(value as any).name}\\(\\) \\{ \\[native code\\] \\}$`
-        ).test(functionToString.call(value))
+        functionToString.call(value) ===
+            `function ${String((value as any).name)}() { [native code] }`
     );
 }
-- 
2.43.0


From dc87483b4e30ff02bd4b59d3904a4f5517d390bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 103/160] fix: isFunctionBound does not throw for functions
 whose name is not a string

---
 packages/types/src/function/isFunctionBound.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/function/isFunctionBound.ts b/packages/types/src/function/isFunctionBound.ts
index 65c40b5..9055a1b 100644
--- a/packages/types/src/function/isFunctionBound.ts
+++ b/packages/types/src/function/isFunctionBound.ts
@@ -19,7 +19,7 @@ export default function isFunctionBound<
 >(value: unknown): value is Function<R, A> {
     return (
         isFunction(value) &&
-        value.name.startsWith('bound ') &&
+        String(value.name).startsWith('bound ') &&
         !hasOwnProperty(value, 'prototype') &&
         value.toString() === 'function () { [native code] }'
     );
-- 
2.43.0


From ade00d416619c48cd435b61fd365ddf6169daef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 104/160] fix: isClass sees anonymous classes without a space
 and no methods named class

---
 packages/types/src/function/isClass.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/function/isClass.ts b/packages/types/src/function/isClass.ts
index 46a0a81..61ab7fa 100644
--- a/packages/types/src/function/isClass.ts
+++ b/packages/types/src/function/isClass.ts
@@ -2,6 +2,9 @@ import { functionToString } from './constants';
 import isFunction from './isFunction';
 import type { Class } from './types';
 
+/** 以 `class` 开头，且不是以 `class` 开头的标识符或名为 `class` 的方法 */
+const classPattern = /^class(?![\p{ID_Continue}$\u200c\u200d]|\s*\()/u;
+
 /**
  * 是不是一个类
  *
@@ -16,6 +19,6 @@ export default function isClass<R = unknown, A extends unknown[] = unknown[]>(
     value: unknown
 ): value is Class<R, A> {
     return (
-        isFunction(value) && functionToString.call(value).startsWith('class ')
+        isFunction(value) && classPattern.test(functionToString.call(value))
     );
 }
-- 
2.43.0


From 4c80531d2dfd6db17bae92a07bac11f7d9504ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 105/160] fix: isPureObject accepts objects with a constructor
 key

---
 packages/types/src/object/isPureObject.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/types/src/object/isPureObject.ts b/packages/types/src/object/isPureObject.ts
index 20d4f87..0a810d1 100644
--- a/packages/types/src/object/isPureObject.ts
+++ b/packages/types/src/object/isPureObject.ts
@@ -16,7 +16,6 @@ export default function isPureObject<K extends PropertyKey, V = unknown>(
 ): value is Record<K, V> {
     return (
         isObject(value) &&
-        value.constructor === undefined &&
         Object.getPrototypeOf(value) === null &&
         !(Symbol.toStringTag in value) &&
         !(Symbol.iterator in value)
-- 
2.43.0


From ee34a54bc3018543d442f5b77fc97836881031a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 106/160] fix: isVarName accepts identifiers only

---
 packages/types/src/variable/isVarName.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/variable/isVarName.ts b/packages/types/src/variable/isVarName.ts
index bd2b608..ac2d0db 100644
--- a/packages/types/src/variable/isVarName.ts
+++ b/packages/types/src/variable/isVarName.ts
@@ -1,5 +1,9 @@
 import isString from '../string/isString';
 
+/** 标识符，避免 `a = 1`、`a, b` 等其他语法被当做变量名 */
+const identifierPattern =
+    /^(?:[\p{ID_Continue}$\u200c\u200d]|\\u[\da-f]{4}|\\u\{[\da-f]+\})+$/iu;
+
 /**
  * 是不是可以把值当做 `JavaScript` 的变量名
  *
@@ -8,7 +12,11 @@ import isString from '../string/isString';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isVarName(value: unknown): value is string {
-    if (!isString(value) || value.trim() !== value) {
+    if (
+        !isString(value) ||
+        value.trim() !== value ||
+        !identifierPattern.test(value)
+    ) {
         return false;
     }
 
-- 
2.43.0


From 4bf1c09cda86890fdad3cce9b854db4799d00d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 107/160] fix: isElement does not throw outside browsers

---
 packages/types/src/element/isElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/element/isElement.ts b/packages/types/src/element/isElement.ts
index e55a7bd..8c7f529 100644
--- a/packages/types/src/element/isElement.ts
+++ b/packages/types/src/element/isElement.ts
@@ -10,5 +10,5 @@
  *
  */
 export default function isElement(value: unknown): value is Element {
-    return value instanceof Element;
+    return typeof Element !== 'undefined' && value instanceof Element;
 }
-- 
2.43.0


From 7f2880771c5b6683659af894409a97272b84f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 108/160] fix: isPropertyDescriptor agrees with
 Object.defineProperty on accessors

---
 .../types/src/property/isPropertyDescriptor.ts  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/types/src/property/isPropertyDescriptor.ts b/packages/types/src/property/isPropertyDescriptor.ts
index 96219d9..a478d0d 100644
--- a/packages/types/src/property/isPropertyDescriptor.ts
+++ b/packages/types/src/property/isPropertyDescriptor.ts
@@ -1,5 +1,6 @@
 import isBoolean from '../boolean/isBoolean';
 import isFunction from '../function/isFunction';
+import isUndefined from '../nullable/isUndefined';
 import isObject from '../object/isObject';
 
 import hasOwnProperty from './hasOwnProperty';
@@ -20,12 +21,16 @@ export default function isPropertyDescriptor(
     }
 
     const isData = hasOwnProperty(value, 'value');
-    const IsAccessor =
-        (hasOwnProperty(value, 'get') && isFunction(value.get)) ||
-        (hasOwnProperty(value, 'set') && isFunction(value.set));
+    const isAccessor =
+        hasOwnProperty(value, 'get') || hasOwnProperty(value, 'set');
 
-    // `value` 和 `get/set` 不能同时存在
-    if (isData && IsAccessor) {
+    // `value`、`writable` 和 `get/set` 不能同时存在，`get/set` 只能是函数或 `undefined`
+    if (
+        isAccessor &&
+        (isData ||
+            hasOwnProperty(value, 'writable') ||
+            ![value.get, value.set].every(v => isUndefined(v) || isFunction(v)))
+    ) {
         return false;
     }
 
@@ -43,5 +48,5 @@ export default function isPropertyDescriptor(
         }
     }
 
-    return isData || IsAccessor;
+    return isData || isAccessor;
 }
-- 
2.43.0


From 2dd4feef4051ce34b6d9d2b22c484515f3608934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 109/160] fix: isBuffer returns a boolean

---
 packages/types/src/buffer/isBuffer.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/types/src/buffer/isBuffer.ts b/packages/types/src/buffer/isBuffer.ts
index b8b38e7..c88e639 100644
--- a/packages/types/src/buffer/isBuffer.ts
+++ b/packages/types/src/buffer/isBuffer.ts
@@ -22,9 +22,11 @@ const r = (value: any) => value.constructor.isBuffer(value);
 export default function isBuffer(value: unknown): value is Buffer {
     try {
         return (
-            r(value) ||
-            ((value as Buffer).readFloatLE &&
-                r((value as Buffer).subarray(0, 1)))
+            !!r(value) ||
+            !!(
+                (value as Buffer).readFloatLE &&
+                r((value as Buffer).subarray(0, 1))
+            )
         );
     } catch {}
 
-- 
2.43.0


From b6c502bdcc9ae09a8bcd2fd64092e68ce2824e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 110/160] fix: assertEqual compares with the values, not with
 their list

---
 packages/asserts/src/cmp/assertEqual.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/asserts/src/cmp/assertEqual.ts b/packages/asserts/src/cmp/assertEqual.ts
index 4cc1a6a..89dd20c 100644
--- a/packages/asserts/src/cmp/assertEqual.ts
+++ b/packages/asserts/src/cmp/assertEqual.ts
@@ -13,7 +13,7 @@ export default function assertEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isEqual(value, args)) {
+    if (!isEqual(value, ...args)) {
         throw new TypeError(
             `[assertEqual] ${value} 与 ${args} 中的某些值不相等`
         );
-- 
2.43.0


From 9043b3ebba49ed3514b21a9e43e2c945c80f94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 111/160] fix: assertNotEqual compares with the values, not
 with their list

---
 packages/asserts/src/cmp/assertNotEqual.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/cmp/assertNotEqual.ts b/packages/asserts/src/cmp/assertNotEqual.ts
index a01257a..4e407a0 100644
--- a/packages/asserts/src/cmp/assertNotEqual.ts
+++ b/packages/asserts/src/cmp/assertNotEqual.ts
@@ -13,7 +13,7 @@ export default function assertNotEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isNotEqual(value, args)) {
-        throw new TypeError(`[assertEqual] ${value} 与 ${args} 中的某些值相等`);
+    if (!isNotEqual(value, ...args)) {
+        throw new TypeError(`[assertNotEqual] ${value} 与 ${args} 中的某些值相等`);
     }
 }
-- 
2.43.0


From 8e9ded307172c62a89dad579185eea7232828ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 112/160] fix: error predicates answer for a DOMException
 instead of throwing

---
 packages/types/src/error/isAggregateError.ts | 2 ++
 packages/types/src/error/isEvalError.ts      | 5 ++++-
 packages/types/src/error/isRangeError.ts     | 5 ++++-
 packages/types/src/error/isReferenceError.ts | 2 ++
 packages/types/src/error/isSyntaxError.ts    | 5 ++++-
 packages/types/src/error/isTypeError.ts      | 5 ++++-
 packages/types/src/error/isURIError.ts       | 5 ++++-
 7 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/packages/types/src/error/isAggregateError.ts b/packages/types/src/error/isAggregateError.ts
index e428c93..fa89d05 100644
--- a/packages/types/src/error/isAggregateError.ts
+++ b/packages/types/src/error/isAggregateError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import isDOMException from './isDOMException';
 
 /**
  * 是不是一个 `AggregateError` 对象
@@ -13,6 +14,7 @@ import isAnyError from './isAnyError';
 export default function isAggregateError(value: unknown): value is EvalError {
     return (
         isAnyError(value) &&
+        !isDOMException(value) &&
         Object.getPrototypeOf(value)?.name === 'AggregateError'
     );
 }
diff --git a/packages/types/src/error/isEvalError.ts b/packages/types/src/error/isEvalError.ts
index 825caef..011d8ea 100644
--- a/packages/types/src/error/isEvalError.ts
+++ b/packages/types/src/error/isEvalError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import isDOMException from './isDOMException';
 
 /**
  * 是不是一个 `EvalError` 对象
@@ -8,6 +9,8 @@ import isAnyError from './isAnyError';
  */
 export default function isEvalError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'EvalError'
+        isAnyError(value) &&
+        !isDOMException(value) &&
+        Object.getPrototypeOf(value)?.name === 'EvalError'
     );
 }
diff --git a/packages/types/src/error/isRangeError.ts b/packages/types/src/error/isRangeError.ts
index d1fe900..b6c9549 100644
--- a/packages/types/src/error/isRangeError.ts
+++ b/packages/types/src/error/isRangeError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import isDOMException from './isDOMException';
 
 /**
  * 是不是一个 `RangeError` 对象
@@ -8,6 +9,8 @@ import isAnyError from './isAnyError';
  */
 export default function isRangeError(value: unknown): value is RangeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'RangeError'
+        isAnyError(value) &&
+        !isDOMException(value) &&
+        Object.getPrototypeOf(value)?.name === 'RangeError'
     );
 }
diff --git a/packages/types/src/error/isReferenceError.ts b/packages/types/src/error/isReferenceError.ts
index 7ace1ea..6708733 100644
--- a/packages/types/src/error/isReferenceError.ts
+++ b/packages/types/src/error/isReferenceError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import isDOMException from './isDOMException';
 
 /**
  * 是不是一个 `ReferenceError` 对象
@@ -11,6 +12,7 @@ export default function isReferenceError(
 ): value is ReferenceError {
     return (
         isAnyError(value) &&
+        !isDOMException(value) &&
         Object.getPrototypeOf(value)?.name === 'ReferenceError'
     );
 }
diff --git a/packages/types/src/error/isSyntaxError.ts b/packages/types/src/error/isSyntaxError.ts
index 4dc6892..9a54495 100644
--- a/packages/types/src/error/isSyntaxError.ts
+++ b/packages/types/src/error/isSyntaxError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import isDOMException from './isDOMException';
 
 /**
  * 是不是一个 `SyntaxError` 对象
@@ -8,6 +9,8 @@ import isAnyError from './isAnyError';
  */
 export default function isSyntaxError(value: unknown): value is SyntaxError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'SyntaxError'
+        isAnyError(value) &&
+        !isDOMException(value) &&
+        Object.getPrototypeOf(value)?.name === 'SyntaxError'
     );
 }
diff --git a/packages/types/src/error/isTypeError.ts b/packages/types/src/error/isTypeError.ts
index 8a02941..f1755f7 100644
--- a/packages/types/src/error/isTypeError.ts
+++ b/packages/types/src/error/isTypeError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import isDOMException from './isDOMException';
 
 /**
  * 是不是一个 `TypeError` 对象
@@ -8,6 +9,8 @@ import isAnyError from './isAnyError';
  */
 export default function isTypeError(value: unknown): value is TypeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'TypeError'
+        isAnyError(value) &&
+        !isDOMException(value) &&
+        Object.getPrototypeOf(value)?.name === 'TypeError'
     );
 }
diff --git a/packages/types/src/error/isURIError.ts b/packages/types/src/error/isURIError.ts
index 3a9e893..3676248 100644
--- a/packages/types/src/error/isURIError.ts
+++ b/packages/types/src/error/isURIError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import isDOMException from './isDOMException';
 
 /**
  * 是不是一个 `URIError` 对象
@@ -12,6 +13,8 @@ import isAnyError from './isAnyError';
  */
 export default function isURIError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'URIError'
+        isAnyError(value) &&
+        !isDOMException(value) &&
+        Object.getPrototypeOf(value)?.name === 'URIError'
     );
 }
-- 
2.43.0


From a6026e12d5636fc765f12f935686f15a1f146dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 113/160] fix: assertPrototypeOf takes the object whose
 prototype chain is checked

---
 packages/asserts/src/property/assertPrototypeOf.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/property/assertPrototypeOf.ts b/packages/asserts/src/property/assertPrototypeOf.ts
index bbf249e..a01cfbf 100644
--- a/packages/asserts/src/property/assertPrototypeOf.ts
+++ b/packages/asserts/src/property/assertPrototypeOf.ts
@@ -7,11 +7,13 @@ import typeGuard from '../constants/typeGuard';
  *
  * @param value 要验证的值
  * @param variableName 该值的变量名
+ * @param v 要检查其原型链的另一个对象
  * @throws 如果不是则会抛出类型异常
  */
 export default function assertPrototypeOf<T = unknown>(
     value: unknown,
-    variableName: string
+    variableName: string,
+    v: PropertyKey
 ): asserts value is T {
-    return typeGuard(value, variableName, isPrototypeOf);
+    return typeGuard(value, variableName, isPrototypeOf, v);
 }
-- 
2.43.0


From c9179402f2b79dfb0023f02ec894dd9dd0ff9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 114/160] fix: readLnk returns the target instead of always
 failing

---
 packages/fs/src/readLnk.ts | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 0b480ae..6cc5546 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -1,10 +1,9 @@
-import { exec } from 'child_process';
+import { execFile } from 'child_process';
 import { normalize } from 'path';
 import { platform } from 'process';
 import { promisify } from 'util';
 
 import { format } from '@curong/term';
-import { isNull } from '@curong/types';
 
 /**
  * 拼接适用于 `Windows` 的命令
@@ -13,7 +12,10 @@ import { isNull } from '@curong/types';
  * @returns 返回拼接好的命令字符串
  */
 function getCommand(pathString: string): string {
-    return `(New-Object -COM WScript.Shell).CreateShortcut('${pathString}').TargetPath;`;
+    return `(New-Object -COM WScript.Shell).CreateShortcut('${pathString.replace(
+        /'/g,
+        "''"
+    )}').TargetPath;`;
 }
 
 /**
@@ -36,12 +38,13 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    const command = `powershell.exe -command ${getCommand(pathString)}`;
-    const { stdout, stderr } = await promisify(exec)(command, {
-        encoding: 'utf8'
-    });
+    const { stdout, stderr } = await promisify(execFile)(
+        'powershell.exe',
+        ['-command', getCommand(pathString)],
+        { encoding: 'utf8' }
+    );
 
-    if (!isNull(stderr)) {
+    if (stderr) {
         throw format({
             name: 'readLnk',
             message: '"lnk" 文件解析失败',
@@ -49,5 +52,5 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    return stdout;
+    return stdout.trim();
 }
-- 
2.43.0


From 2a03e860efd1b40f65057649ead1ed5517d0090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 115/160] fix: fileList follows shortcuts to directories with a
 dot in their name

---
 packages/fs/src/fileList.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index 306f37c..f96ea7c 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -3,6 +3,7 @@ import { extname, join } from 'path';
 
 import { format } from '@curong/term';
 
+import isDir from './isDir';
 import readLnk from './readLnk';
 import type { FileListOptions } from './types';
 
@@ -56,7 +57,7 @@ export default async function fileList(
             const targetPath = await readLnk(absolutePath).catch(() => null);
             if (!targetPath) continue;
 
-            if (extname(targetPath) === '') {
+            if (await isDir(targetPath)) {
                 // 如果是文件夹
                 files.push(...(await fileList(targetPath)));
             } else {
-- 
2.43.0


From a58e0da9f4dbf892d4d463692409d291f26eb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 116/160] fix: findDir follows shortcuts to directories with a
 dot in their name

---
 packages/fs/src/findDir.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/findDir.ts b/packages/fs/src/findDir.ts
index 594c62d..a077720 100644
--- a/packages/fs/src/findDir.ts
+++ b/packages/fs/src/findDir.ts
@@ -4,6 +4,7 @@ import { extname, join } from 'path';
 import { format } from '@curong/term';
 import { isArrayFilled, isStringFilled } from '@curong/types';
 
+import isDir from './isDir';
 import readLnk from './readLnk';
 
 /**
@@ -52,7 +53,7 @@ async function findDirCall(
             const targetPath = await readLnk(absolutePath).catch(() => null);
             if (!targetPath) continue;
 
-            if (extname(targetPath) === '') {
+            if (await isDir(targetPath)) {
                 // 如果是文件夹
                 files.push(...(await findDirCall(targetPath, folders, data)));
             } else {
-- 
2.43.0


From ad23db18d4c979bf09e25740bc5b6529c3634daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 117/160] fix: fileList lists the files of a directory named
 like a shortcut

---
 packages/fs/src/fileList.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index f96ea7c..5d1abcf 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -53,7 +53,7 @@ export default async function fileList(
         const absolutePath: string = join(dirName, name);
 
         // 如果是一个Windows的快捷方式
-        if (extname(absolutePath) === '.lnk') {
+        if (extname(absolutePath) === '.lnk' && !dirent.isDirectory()) {
             const targetPath = await readLnk(absolutePath).catch(() => null);
             if (!targetPath) continue;
 
-- 
2.43.0


From 1e43954ea93863575e4ed3b971c73008f42ef5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 118/160] fix: destPath uses the shortcut through which the
 file was reached

---
 packages/fs/src/destPath.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/destPath.ts b/packages/fs/src/destPath.ts
index 631905a..1bc952d 100644
--- a/packages/fs/src/destPath.ts
+++ b/packages/fs/src/destPath.ts
@@ -1,5 +1,5 @@
 import { promises } from 'fs';
-import { dirname, isAbsolute, join, normalize, relative } from 'path';
+import { dirname, isAbsolute, join, normalize, relative, sep } from 'path';
 
 import { format } from '@curong/term';
 import { isStringFilled } from '@curong/types';
@@ -68,13 +68,22 @@ export default async function destPath(
             const targetPath = await readLnk(join(srcDir, p)).catch(() => null);
             if (!targetPath) continue;
 
+            // 当前文件不是通过这个快捷方式访问的
+            const relativePath = relative(targetPath, filePath);
+            if (
+                relativePath.split(sep)[0] === '..' ||
+                isAbsolute(relativePath)
+            ) {
+                continue;
+            }
+
             // 目标文件夹 + 当前快捷方式的名字 + 相对路径 = 最终的路径(包含文件名和后缀)
             return join(
                 desDir,
                 // 快捷方式的名字(已经删除了".lnk")
                 p.slice(0, p.lastIndexOf('.')),
                 // 获取相对路径
-                relative(targetPath, filePath)
+                relativePath
             );
         }
     }
-- 
2.43.0


From fcfab4798c32de9995da0bcf968d2c78c636ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 119/160] fix: destPath creates the target folder of files
 reached through a shortcut

---
 packages/fs/src/destPath.ts | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/destPath.ts b/packages/fs/src/destPath.ts
index 1bc952d..6960b5a 100644
--- a/packages/fs/src/destPath.ts
+++ b/packages/fs/src/destPath.ts
@@ -78,26 +78,29 @@ export default async function destPath(
             }
 
             // 目标文件夹 + 当前快捷方式的名字 + 相对路径 = 最终的路径(包含文件名和后缀)
-            return join(
+            destPath = join(
                 desDir,
                 // 快捷方式的名字(已经删除了".lnk")
                 p.slice(0, p.lastIndexOf('.')),
                 // 获取相对路径
                 relativePath
             );
+            break;
         }
     }
 
-    // 拼接相对路径，如果拼接失败则会返回绝对路径(filePath)
-    const resolvePath = relative(srcDir, filePath);
+    if (!destPath) {
+        // 拼接相对路径，如果拼接失败则会返回绝对路径(filePath)
+        const resolvePath = relative(srcDir, filePath);
 
-    // 如果是绝对路径
-    if (isAbsolute(resolvePath)) {
-        return Promise.resolve(filePath);
-    }
+        // 如果是绝对路径
+        if (isAbsolute(resolvePath)) {
+            return Promise.resolve(filePath);
+        }
 
-    // 拿到相对路径然后做拼接
-    destPath = join(desDir, resolvePath);
+        // 拿到相对路径然后做拼接
+        destPath = join(desDir, resolvePath);
+    }
 
     if (isMakeDir) {
         const destDir = dirname(destPath);
-- 
2.43.0


From 88b5c155347b03060b79727e965f168eebe3aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 120/160] fix: timeoutLog keeps the milliseconds of whole days

---
 packages/function/src/timeout/timeoutLog.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/timeoutLog.ts b/packages/function/src/timeout/timeoutLog.ts
index c3f7fcc..7da25b8 100644
--- a/packages/function/src/timeout/timeoutLog.ts
+++ b/packages/function/src/timeout/timeoutLog.ts
@@ -39,7 +39,7 @@ export default function timeoutLog(
         } else {
             formatString =
                 `${date.getDate() - 1}天 ${hours}:${minutes}:${seconds}${millisecond}`.replace(
-                    ' 00:00:00',
+                    / 00:00:00$/,
                     ''
                 );
         }
-- 
2.43.0


From 00ac0411f1b7251920f529f8118ac7722d7c3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 121/160] fix: timeoutLog does not depend on the time zone

---
 packages/function/src/timeout/timeoutLog.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/function/src/timeout/timeoutLog.ts b/packages/function/src/timeout/timeoutLog.ts
index 7da25b8..8cfaf0e 100644
--- a/packages/function/src/timeout/timeoutLog.ts
+++ b/packages/function/src/timeout/timeoutLog.ts
@@ -1,7 +1,7 @@
 import { isUint } from '@curong/types';
 
 const padZero = (num: number | string) => num.toString().padStart(2, '0');
-const initTime = new Date('2000-01-01 00:00:00').getTime();
+const initTime = Date.UTC(2000, 0, 1);
 
 /**
  * 将超时时间打印为一个可读的字符串格式。包含天、小时、分钟和秒
@@ -23,14 +23,14 @@ export default function timeoutLog(
 
     const date = new Date(initTime + duration);
     let formatString: string;
-    let millisecond = date.getMilliseconds().toString();
+    let millisecond = date.getUTCMilliseconds().toString();
 
     if (duration < 1e3) {
         formatString = `${millisecond}ms`;
     } else {
-        const seconds = padZero(date.getSeconds());
-        const minutes = padZero(date.getMinutes());
-        const hours = padZero(date.getHours());
+        const seconds = padZero(date.getUTCSeconds());
+        const minutes = padZero(date.getUTCMinutes());
+        const hours = padZero(date.getUTCHours());
         millisecond =
             millisecond === '0' ? '' : `.${millisecond.padStart(3, '0')}`;
 
@@ -38,7 +38,7 @@ export default function timeoutLog(
             formatString = `${hours}:${minutes}:${seconds}${millisecond}`;
         } else {
             formatString =
-                `${date.getDate() - 1}天 ${hours}:${minutes}:${seconds}${millisecond}`.replace(
+                `${date.getUTCDate() - 1}天 ${hours}:${minutes}:${seconds}${millisecond}`.replace(
                     / 00:00:00$/,
                     ''
                 );
-- 
2.43.0


From 98d756270740294106156d71dbf84af82a78d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 122/160] fix: nextTick through MutationObserver does not fail
 after the last callback

---
 packages/function/src/timeout/nextTick.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/nextTick.ts b/packages/function/src/timeout/nextTick.ts
index 3b6c1e0..de3f3ff 100644
--- a/packages/function/src/timeout/nextTick.ts
+++ b/packages/function/src/timeout/nextTick.ts
@@ -39,7 +39,7 @@ const byObserver = (
 
         node.data = `${(bit = ++bit % 2)}`;
 
-        while (i < currentQueue.length) {
+        while (currentQueue && i < currentQueue.length) {
             callback = currentQueue[i];
             i++;
             if (i === currentQueue.length) currentQueue = null;
-- 
2.43.0


From 576e137faaa83661c8f350d2335fe7f89f7b029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 123/160] fix: nextTick through MutationObserver never runs
 callbacks again after one threw

---
 packages/function/src/timeout/nextTick.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/nextTick.ts b/packages/function/src/timeout/nextTick.ts
index de3f3ff..3d3b032 100644
--- a/packages/function/src/timeout/nextTick.ts
+++ b/packages/function/src/timeout/nextTick.ts
@@ -21,7 +21,7 @@ const byObserver = (
 
         if (!queue) {
             if (!currentQueue) return;
-            queue = currentQueue;
+            queue = currentQueue.slice(i);
         } else if (currentQueue) {
             queue = currentQueue.slice(i).concat(queue);
         }
-- 
2.43.0


From 5a0d999931136fe7c13717d57751d27761836a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 124/160] fix: isWSL recognises WSL 2

---
 packages/os/src/platform.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/os/src/platform.ts b/packages/os/src/platform.ts
index c70bc98..d38290e 100644
--- a/packages/os/src/platform.ts
+++ b/packages/os/src/platform.ts
@@ -12,4 +12,5 @@ export const isMacOS = osType === 'Darwin';
 export const isLinux = osType === 'Linux';
 
 /** 是不是 `Windows` 系统平台上的 `Linux` 子系统 */
-export const isWSL = isLinux && release().endsWith('Microsoft');
+// `WSL 1` 的内核版本以 `Microsoft` 结尾，而 `WSL 2` 的则类似 `5.15.90.1-microsoft-standard-WSL2`
+export const isWSL = isLinux && release().toLowerCase().includes('microsoft');
-- 
2.43.0


From 7f2c3640fec918b106f17deed3fd6e75ea090955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 125/160] fix: copy of a folder into itself does not end

---
 packages/fs/src/copy.ts | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 259db34..f7a2aee 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,5 +1,5 @@
 import { copyFile, lstat, readdir } from 'fs/promises';
-import { dirname, join } from 'path';
+import { dirname, isAbsolute, join, relative, sep } from 'path';
 
 import { format } from '@curong/term';
 
@@ -44,6 +44,7 @@ const _copyFile = async (from: string, to: string, forcibly = false) => {
  * @throws
  *
  * - 如果 `fromPath` 不是文件、文件夹、符号链接则会抛出异常
+ * - 如果 `toPath` 在 `fromPath` 文件夹的内部则会抛出异常
  * - 如果 `toPath` 名被占用且 `toPath` 不是文件夹则会抛出异常
  * - 如果读取文件夹失败则会抛出异常
  * - 如果拷贝文件失败则会抛出异常
@@ -76,6 +77,21 @@ export default async function copy(
         });
     }
 
+    const relativePath = relative(fromPath, toPath);
+
+    // 如果目标在源文件夹的内部，则拷贝永远不会结束
+    if (
+        relativePath &&
+        relativePath.split(sep)[0] !== '..' &&
+        !isAbsolute(relativePath)
+    ) {
+        throw format({
+            name,
+            message: 'toPath不能在fromPath文件夹的内部',
+            data: { fromPath, toPath }
+        });
+    }
+
     const toPathStat = await lstat(toPath).catch(() => null);
 
     // 如果目标名已经被占用并且目标不是一个文件夹
-- 
2.43.0


From 2e0cfabe65b736bbd167056ca6336df033a2e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 126/160] fix: copy copies methods and accessors of every name

---
 packages/util/src/copy.ts | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 0effdd4..ce39d81 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -222,15 +222,28 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
     }
 };
 
-const getDescriptorSource = (src: string, name: string, flag: string) => `
-  const o = { ${src} }; return Object.getOwnPropertyDescriptor(o, '${name}').${flag};
-`;
+/** 根据源代码创建函数 */
+const createFunction = (src: string) => {
+    try {
+        return new Function(`return (${src}\n);`)();
+    } catch (e: any) {
+        if (e?.name !== 'SyntaxError') {
+            throw e;
+        }
+    }
+
+    // 方法、`getter` 和 `setter` 的源代码只有写在对象中才是合法的。
+    // 类似于 `fn() {}`、`[Symbol.iterator]() {}` 或 `get name() {}` 的情况
+    const o = new Function(`return { ${src}\n};`)();
+    const { get, set, value }: PropertyDescriptor =
+        Object.getOwnPropertyDescriptor(o, Reflect.ownKeys(o)[0])!;
+
+    return get ?? set ?? value;
+};
 
 const copyFunction = (value: any, weak: any) => {
     const { name } = value;
     const src = value.toString();
-    let source: string;
-    let m: any;
 
     // 如果是 `ECMAScript` 原生函数
     if (
@@ -242,18 +255,7 @@ const copyFunction = (value: any, weak: any) => {
         return value;
     }
 
-    // 区分 `getter`、`setter`、箭头函数和普通函数，生成不同的函数源代码
-    if ((m = /^(get|set) (\S+)$/.exec(name))) {
-        const [, flag, name] = m;
-        source = getDescriptorSource(src, name, flag);
-    } else if (/^(:?async ?\* ?)?\[/.test(src)) {
-        // 处理类似于 `[Symbol.iterator]() {}` || `async *[Symbol.asyncIterator]() {}` 的情况
-        source = `const __$$INNER$$__ = { ${src} }; return __$$INNER$$__${name};`;
-    } else {
-        source = `return ${src};`;
-    }
-
-    return copyAttrs(value, new Function(source!)(), weak);
+    return copyAttrs(value, createFunction(src), weak);
 };
 
 function recursiveCopy<T extends object>(
-- 
2.43.0


From 79444b927a93d8a67e5367992e0af0a0594c11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 127/160] fix: copy of a function ends when it refers to itself
 and keeps sharing

---
 packages/util/src/copy.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index ce39d81..b89016a 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -242,6 +242,10 @@ const createFunction = (src: string) => {
 };
 
 const copyFunction = (value: any, weak: any) => {
+    if (weak.has(value)) {
+        return weak.get(value);
+    }
+
     const { name } = value;
     const src = value.toString();
 
@@ -255,7 +259,12 @@ const copyFunction = (value: any, weak: any) => {
         return value;
     }
 
-    return copyAttrs(value, createFunction(src), weak);
+    const fn = createFunction(src);
+
+    // 先记录再拷贝属性，否则在属性中引用自身时会无限递归
+    weak.set(value, fn);
+
+    return copyAttrs(value, fn, weak);
 };
 
 function recursiveCopy<T extends object>(
-- 
2.43.0


From 31f383c9d7e30552de2022dc7b170cec2e8c20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 128/160] fix: copy copies functions that mention [native code]

---
 packages/util/src/copy.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index b89016a..b41cd93 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -251,8 +251,8 @@ const copyFunction = (value: any, weak: any) => {
 
     // 如果是 `ECMAScript` 原生函数
     if (
-        // `function () { [native code] }` 中包含 `[native code]`
-        src.includes('[native code]') &&
+        // 源代码类似于 `function () { [native code] }`
+        /\{\s*\[native code\]\s*\}$/.test(src) &&
         // 不是经过 `.bind()` 之后的函数
         !(name.startsWith('bound ') && !hasOwnProperty(value, 'prototype'))
     ) {
-- 
2.43.0


From 2525ad9c3b4b19ba1636078ad6d15ea6eb0a88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 129/160] fix: copy keeps the message and name of a
 DOMException

---
 packages/util/src/copy.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index b41cd93..8ce3f95 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -196,7 +196,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             return copyAttrs(value, instance, weak);
         }
 
-        case 'DOMException':
+        case 'DOMException': {
+            const ins = new value.constructor(value.message, value.name);
+
+            weak.set(value, ins);
+            const o = copyAttrs(value, ins, weak);
+            o.stack = value.stack; // 堆栈也要一样
+            return o;
+        }
+
         case 'Error':
         case 'EvalError':
         case 'RangeError':
-- 
2.43.0


From ed72efecfb638a4017b1100adc0f0132a35b1bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 130/160] fix: copy keeps sharing and cycles inside an
 AggregateError

---
 packages/util/src/copy.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 8ce3f95..6efcd18 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -214,10 +214,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         case 'URIError': {
             const ins =
                 value instanceof AggregateError
-                    ? new AggregateError(value.errors.map(copy), value.message)
+                    ? new AggregateError([], value.message)
                     : new (Object.getPrototypeOf(value).constructor)();
 
             weak.set(value, ins);
+
+            if (value instanceof AggregateError) {
+                ins.errors = recursiveCopy(value.errors as any, weak);
+            }
+
             const o = copyAttrs(value, ins, weak);
             o.stack = value.stack; // 堆栈也要一样
             return o;
-- 
2.43.0


From 06c76aa053400ac56b8f89b898ace1c7a5d65b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 131/160] fix: shortcuts that lead back no longer make fileList
 and findDir endless

---
 packages/fs/src/fileList.ts | 49 +++++++++++++++++++++++++++----------
 packages/fs/src/findDir.ts  | 21 +++++++++++-----
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index 5d1abcf..722a8f2 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -1,5 +1,5 @@
 import { Dirent, promises } from 'fs';
-import { extname, join } from 'path';
+import { extname, join, resolve } from 'path';
 
 import { format } from '@curong/term';
 
@@ -10,18 +10,15 @@ import type { FileListOptions } from './types';
 /**
  * 获取一个文件夹的所有文件列表
  *
- * 支持从 Windows 快捷方式(`lnk`) 中读取目录或文件
- *
- * @param {string} dirName 文件夹目录
+ * @param dirName 文件夹目录
  * @param options 配置选项
- *  - `depthOnce` 是否只获取一层深度的数据，默认为 `false`
- * @return 返回一个包含文件名的列表
- * @throws 如果读取文件夹失败，则会抛出异常
- * @todos 将参数变为一个 `options`： { ignored = '', depth = 0 }
+ * @param parents 正在读取的文件夹和它的上级文件夹
+ * @returns 返回一个包含文件名的列表
  */
-export default async function fileList(
+async function fileListCall(
     dirName: string,
-    options?: FileListOptions
+    options: FileListOptions | undefined,
+    parents: string[]
 ): Promise<Array<string>> {
     const { depthOnce = false } = options ?? {};
 
@@ -41,6 +38,8 @@ export default async function fileList(
 
     if (!dirents || !dirents.length) return files;
 
+    parents = [...parents, resolve(dirName)];
+
     for (let i = 0, len = dirents.length; i < len; i++) {
         const dirent: Dirent = dirents[i];
         const { name } = dirent;
@@ -55,11 +54,14 @@ export default async function fileList(
         // 如果是一个Windows的快捷方式
         if (extname(absolutePath) === '.lnk' && !dirent.isDirectory()) {
             const targetPath = await readLnk(absolutePath).catch(() => null);
-            if (!targetPath) continue;
+            // 如果快捷方式指向的是正在读取的文件夹，就跳过它，否则会无限循环
+            if (!targetPath || parents.includes(resolve(targetPath))) continue;
 
             if (await isDir(targetPath)) {
                 // 如果是文件夹
-                files.push(...(await fileList(targetPath)));
+                files.push(
+                    ...(await fileListCall(targetPath, undefined, parents))
+                );
             } else {
                 // 不是文件夹，那么就是文件了
                 files.push(targetPath);
@@ -70,7 +72,9 @@ export default async function fileList(
 
         // 是文件夹
         if (dirent.isDirectory()) {
-            files.push(...(await fileList(absolutePath)));
+            files.push(
+                ...(await fileListCall(absolutePath, undefined, parents))
+            );
         } else {
             files.push(absolutePath);
         }
@@ -78,3 +82,22 @@ export default async function fileList(
 
     return files;
 }
+
+/**
+ * 获取一个文件夹的所有文件列表
+ *
+ * 支持从 Windows 快捷方式(`lnk`) 中读取目录或文件
+ *
+ * @param {string} dirName 文件夹目录
+ * @param options 配置选项
+ *  - `depthOnce` 是否只获取一层深度的数据，默认为 `false`
+ * @return 返回一个包含文件名的列表
+ * @throws 如果读取文件夹失败，则会抛出异常
+ * @todos 将参数变为一个 `options`： { ignored = '', depth = 0 }
+ */
+export default async function fileList(
+    dirName: string,
+    options?: FileListOptions
+): Promise<Array<string>> {
+    return fileListCall(dirName, options, []);
+}
diff --git a/packages/fs/src/findDir.ts b/packages/fs/src/findDir.ts
index a077720..ed96d6b 100644
--- a/packages/fs/src/findDir.ts
+++ b/packages/fs/src/findDir.ts
@@ -1,5 +1,5 @@
 import { Dirent, promises } from 'fs';
-import { extname, join } from 'path';
+import { extname, join, resolve } from 'path';
 
 import { format } from '@curong/term';
 import { isArrayFilled, isStringFilled } from '@curong/types';
@@ -13,11 +13,13 @@ import readLnk from './readLnk';
  * @param pathString 当前的文件夹
  * @param folders 要查找的文件夹的名字的数组
  * @param data 要返回的结果都可以向里面存，参数必须传递
+ * @param parents 正在查找的文件夹和它的上级文件夹
  */
 async function findDirCall(
     pathString: string,
     folders: string[],
-    data: string[]
+    data: string[],
+    parents: string[]
 ): Promise<string[]> {
     const files: Array<string> = [];
     const dirents: Array<Dirent> | null = await promises
@@ -31,6 +33,8 @@ async function findDirCall(
         return files;
     }
 
+    parents = [...parents, resolve(pathString)];
+
     for (let i: number = 0, len: number = dirents.length; i < len; i++) {
         const dirent: Dirent = dirents[i];
         const name: string = dirent.name;
@@ -43,7 +47,9 @@ async function findDirCall(
                 continue;
             }
 
-            files.push(...(await findDirCall(absolutePath, folders, data)));
+            files.push(
+                ...(await findDirCall(absolutePath, folders, data, parents))
+            );
 
             continue;
         }
@@ -51,11 +57,14 @@ async function findDirCall(
         // 如果是一个Windows的快捷方式
         if (extname(absolutePath) === '.lnk') {
             const targetPath = await readLnk(absolutePath).catch(() => null);
-            if (!targetPath) continue;
+            // 如果快捷方式指向的是正在查找的文件夹，就跳过它，否则会无限循环
+            if (!targetPath || parents.includes(resolve(targetPath))) continue;
 
             if (await isDir(targetPath)) {
                 // 如果是文件夹
-                files.push(...(await findDirCall(targetPath, folders, data)));
+                files.push(
+                    ...(await findDirCall(targetPath, folders, data, parents))
+                );
             } else {
                 // 不是文件夹，那么就是文件了
                 files.push(targetPath);
@@ -95,7 +104,7 @@ export default async function findDir(
         folders = [folders];
     }
 
-    await findDirCall(pathString, folders, pathStrings);
+    await findDirCall(pathString, folders, pathStrings, []);
 
     return pathStrings;
 }
-- 
2.43.0


From 37917f9e1caf0c5846a46493c96bc78c892d20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 132/160] fix: toTree with throwIfOrphans accepts trees of any
 depth

---
 packages/array/src/convert/toTree.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 367a52e..33bd5f2 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -3,21 +3,23 @@ import { hasOwnProperty } from '@curong/types';
 import type { Item, ToTreeOptions, TreeItem } from './types';
 
 /**
- * 递归返回树中的节点数量
+ * 返回树中的节点数量 (不使用递归，树可以有任意的深度)
  *
  * @param tree 树节点数组，每个节点都有一个字段`childrenField`，包含节点数组
  * @param childrenField 包含子节点数组的属性名称
  * @returns 树中的节点数量
  */
 export const countNodes = (tree: TreeItem[], childrenField: string): number => {
-    let count = 0;
+    const nodes = new Set<TreeItem>(tree);
 
-    for (let i = 0; i < tree.length; i++) {
-        count += 1; // 当前节点
-        count += countNodes(tree[i][childrenField] ?? [], childrenField); // 递归子节点
+    // 遍历的过程中新添加的节点也会被访问到
+    for (const node of nodes) {
+        for (const child of node[childrenField] ?? []) {
+            nodes.add(child);
+        }
     }
 
-    return count;
+    return nodes.size;
 };
 
 /**
-- 
2.43.0


From 917f31e27e1b10cc11a5ebf575fc3adaa45dd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 133/160] fix: derive leaves out the properties named by a
 number

---
 packages/object/src/derive.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/derive.ts b/packages/object/src/derive.ts
index 15e0260..181f368 100644
--- a/packages/object/src/derive.ts
+++ b/packages/object/src/derive.ts
@@ -1,4 +1,4 @@
-import { isUndefined } from '@curong/types';
+import { isNumber, isUndefined } from '@curong/types';
 
 import type { ObjectType } from './types';
 
@@ -28,7 +28,10 @@ export default function derive<T extends ObjectType>(
     deleteKeys?: Array<keyof T>
 ) {
     const ret = Object.create(Object.getPrototypeOf(obj));
-    const keysSet: Set<PropertyKey> = new Set(deleteKeys);
+    const keysSet: Set<PropertyKey> = new Set(
+        // 数字属性名在对象中是以字符串的形式存在的
+        Array.from(deleteKeys ?? [], k => (isNumber(k, true) ? String(k) : k))
+    );
     const objKeys = Reflect.ownKeys(obj);
     let key: PropertyKey | undefined;
 
-- 
2.43.0


From d810d43b30fb5b2bd49b3006fe6515929f09eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 134/160] fix: isKeysIncludes finds the properties named by a
 number

---
 packages/object/src/keys/isKeysIncludes.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/keys/isKeysIncludes.ts b/packages/object/src/keys/isKeysIncludes.ts
index 094918e..75fb002 100644
--- a/packages/object/src/keys/isKeysIncludes.ts
+++ b/packages/object/src/keys/isKeysIncludes.ts
@@ -1,4 +1,4 @@
-import { isBoolean } from '@curong/types';
+import { isBoolean, isNumber } from '@curong/types';
 
 import keys from './keys';
 
@@ -95,5 +95,8 @@ export default function isKeysIncludes<K extends PropertyKey, V>(
 
     const k = new Set(keys(object, methodLevel));
 
-    return [key].flat()[useAny ? 'some' : 'every']((v: any) => k.has(v));
+    return [key].flat()[useAny ? 'some' : 'every']((v: any) =>
+        // 数字属性名在对象中是以字符串的形式存在的
+        k.has(isNumber(v, true) ? String(v) : v)
+    );
 }
-- 
2.43.0


From 015554135987c34bc9c4605b7b9ac39ed2113cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 135/160] fix: fileList accepts folders with any number of
 files below them

---
 packages/fs/src/fileList.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index 722a8f2..c44b9bb 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -22,7 +22,7 @@ async function fileListCall(
 ): Promise<Array<string>> {
     const { depthOnce = false } = options ?? {};
 
-    const files: Array<string> = [];
+    let files: Array<string> = [];
     const dirents: Array<Dirent> | void = await promises
         .readdir(dirName, {
             encoding: 'utf8',
@@ -59,8 +59,8 @@ async function fileListCall(
 
             if (await isDir(targetPath)) {
                 // 如果是文件夹
-                files.push(
-                    ...(await fileListCall(targetPath, undefined, parents))
+                files = files.concat(
+                    await fileListCall(targetPath, undefined, parents)
                 );
             } else {
                 // 不是文件夹，那么就是文件了
@@ -72,8 +72,8 @@ async function fileListCall(
 
         // 是文件夹
         if (dirent.isDirectory()) {
-            files.push(
-                ...(await fileListCall(absolutePath, undefined, parents))
+            files = files.concat(
+                await fileListCall(absolutePath, undefined, parents)
             );
         } else {
             files.push(absolutePath);
-- 
2.43.0


From a6c9a61497b2b2f32c687dd97d4153776900d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 136/160] fix: request keeps the query of the URL when the
 query option is given

---
 packages/request/src/request/options.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index ecade29..c5c0b1d 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -168,9 +168,8 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
 
     options.https ??= protocol === 'https:';
     options.hostname ??= hostname;
-    options.path = options.query // 如果传递空对象也是 `true`
-        ? getPath(options.path ?? path, options.query)
-        : getPath((options.path ?? path) + search);
+    // `query` 会被追加到 URL 的末尾，URL 中已有的查询字符串需要保留
+    options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-- 
2.43.0


From 5108fb6711ed78f0549afd36cafe37a1de4767d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 137/160] fix: request calls the handlers for the answer that a
 redirect leads to

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 6ee3603..efd340b 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -272,7 +272,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(redirectUrl.href, options));
+                return resolve(request(redirectUrl.href, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From e10e6b1906aa357a1e1a88a4723739ecbb9825b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 138/160] fix: request does not send the Host header of one
 host to another after a redirect

---
 packages/request/src/request/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index efd340b..bc345d2 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -254,7 +254,8 @@ export default async function request(
                     deleteOptionsAttr(options, ['auth']);
                     deleteOptionsAttr(options.headers, [
                         'cookie',
-                        'authorization'
+                        'authorization',
+                        'host'
                     ]);
                 }
 
-- 
2.43.0


From 99a20116145cf181bafbb35771991b101f941ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 139/160] fix: request reaches IPv6 addresses and follows their
 redirects

---
 packages/request/src/request/options.ts | 17 +++++++++++++----
 packages/request/src/request/request.ts | 11 ++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index c5c0b1d..4328791 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -130,6 +130,14 @@ const getPath = (path?: string, query?: ParsedUrlQueryInput) => {
     return path;
 };
 
+/** 去除 URL 中 `IPv6` 地址的方括号 */
+export const toHostname = (hostname: string) =>
+    hostname.replace(/^\[(.*)\]$/, '$1');
+
+/** 为 `IPv6` 地址添加方括号，以便用于 URL 和 `Host` 请求头 */
+export const toUrlHost = (hostname: string) =>
+    /^[^[].*:/.test(hostname) ? `[${hostname}]` : hostname;
+
 export const deleteOptionsAttr = <T extends Record<PropertyKey, any>>(
     options: T,
     deleteKeys: Array<keyof T>
@@ -167,7 +175,8 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     } = urlParams;
 
     options.https ??= protocol === 'https:';
-    options.hostname ??= hostname;
+    // URL 中的 `IPv6` 地址带有方括号，而发起请求时的主机名不能带有方括号
+    options.hostname ??= toHostname(hostname);
     // `query` 会被追加到 URL 的末尾，URL 中已有的查询字符串需要保留
     options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
@@ -200,14 +209,14 @@ export const optionsHandler = (
     }
 
     const { hostname, path = '/', https = true, query } = options;
-    // `hostname` 有可能是 IP 地址，这时候就要看看 `options.headers.host` 有没有值了
-    const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? hostname}`;
 
     deleteOptionsAttr(options, ['https', 'query']);
     validationParameters({ hostname, path });
 
     options.path = getPath(path, query);
-    options.headers.host ??= hostname;
+    // `hostname` 有可能是 IP 地址，这时候就要看看 `options.headers.host` 有没有值了
+    options.headers.host ??= toUrlHost(hostname!);
+    const origin = `${https ? 'https' : 'http'}://${options.headers.host}`;
     options.headers.origin ??= origin;
     // 可包含完整的 URL 路径（包括协议、主机名、端口、路径等），后面不要加 `/` 了
     options.headers.referer ??= origin;
diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index bc345d2..97cf4fa 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -14,7 +14,12 @@ import type { RequestHandler, RequestOptions, RequestResult } from '../types';
 
 import { handleBody } from './body';
 import { pipeDecompressStream } from './content';
-import { deleteOptionsAttr, optionsHandler } from './options';
+import {
+    deleteOptionsAttr,
+    optionsHandler,
+    toHostname,
+    toUrlHost
+} from './options';
 
 /**
  * 从远程连接获取响应的内容并返回 `Buffer`
@@ -220,7 +225,7 @@ export default async function request(
                 try {
                     redirectUrl = new URL(
                         locationUrl,
-                        `${req.protocol}//${config.hostname}:${config.port ?? ''}${config.path}`
+                        `${req.protocol}//${toUrlHost(config.hostname!)}:${config.port ?? ''}${config.path}`
                     );
                 } catch (error) {
                     return reject(
@@ -231,7 +236,7 @@ export default async function request(
                 }
 
                 // 对请求头的处理
-                const redirectHost = redirectUrl.hostname;
+                const redirectHost = toHostname(redirectUrl.hostname);
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
                 deleteOptionsAttr(options, [
-- 
2.43.0


From 0c5e713f46e8d2e7b026a261d55d5c9aba3f7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 140/160] fix: request names the port in the Host and Origin
 headers

---
 packages/request/src/request/options.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 4328791..e49cdb6 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -215,7 +215,11 @@ export const optionsHandler = (
 
     options.path = getPath(path, query);
     // `hostname` 有可能是 IP 地址，这时候就要看看 `options.headers.host` 有没有值了
-    options.headers.host ??= toUrlHost(hostname!);
+    // 不是协议的默认端口时，`Host` 中必须带有端口号
+    const { port } = options;
+    options.headers.host ??=
+        toUrlHost(hostname!) +
+        (port && +port !== (https ? 443 : 80) ? `:${port}` : '');
     const origin = `${https ? 'https' : 'http'}://${options.headers.host}`;
     options.headers.origin ??= origin;
     // 可包含完整的 URL 路径（包括协议、主机名、端口、路径等），后面不要加 `/` 了
-- 
2.43.0


From ce9b7b00db0484b50a1078486f6fafa3a4780268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 141/160] fix: request follows a 303 answer with GET and
 without the body

---
 packages/request/src/request/request.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 97cf4fa..31510f2 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -266,9 +266,12 @@ export default async function request(
 
                 // 浏览器会将 POST 请求的 301 和 301 重定向重写为 GET
                 // https://tools.ietf.org/html/rfc7231%5C#section-6.4.2
+                // 而 303 则要求始终使用 GET（或 HEAD）来请求重定向的地址
                 if (
-                    config.method === 'POST' &&
-                    /^30[12]$/.test(`${res.statusCode}`)
+                    (config.method === 'POST' &&
+                        /^30[12]$/.test(`${res.statusCode}`)) ||
+                    (res.statusCode === 303 &&
+                        !/^(?:GET|HEAD)$/.test(config.method!))
                 ) {
                     options.method = 'GET';
                     deleteOptionsAttr(options, ['body']);
-- 
2.43.0


From 3b78df1bdd67adb021ed3ca213991921c2737cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 142/160] fix: request decodes deflate answers of any zlib
 window size

---
 packages/request/src/request/content.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/content.ts b/packages/request/src/request/content.ts
index 23125f6..c6498bf 100644
--- a/packages/request/src/request/content.ts
+++ b/packages/request/src/request/content.ts
@@ -44,7 +44,7 @@ export function pipeDecompressStream(res: IncomingMessage): IncomingMessage {
             if (chunk.length !== 0) {
                 this._transform = this.__transform;
 
-                if (chunk[0] !== 0x78) {
+                if ((chunk[0] & 0x0f) !== 0x08) {
                     const header = Buffer.alloc(2);
                     header[0] = 0x78;
                     header[1] = 0x9c;
-- 
2.43.0


From af9dab010c37794ed335e8beed601f8a470a4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 143/160] fix: parallel keeps the error of a task or callback
 whose properties are read-only

---
 packages/function/src/control/parallel.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/function/src/control/parallel.ts b/packages/function/src/control/parallel.ts
index 4c077b7..0ba0d03 100644
--- a/packages/function/src/control/parallel.ts
+++ b/packages/function/src/control/parallel.ts
@@ -50,8 +50,12 @@ export default async function parallel<T>(
             return await toPromise(task);
         } catch (e: any) {
             if (isAnyError(e)) {
-                e.message = `[parallel] 执行第 ${i} 个任务时出错: ${e.message}`;
-                e.cause = { index: i, tasks, options };
+                try {
+                    e.message = `[parallel] 执行第 ${i} 个任务时出错: ${e.message}`;
+                    e.cause = { index: i, tasks, options };
+                } catch {
+                    // 错误的属性是只读的 (例如 `DOMException`)，此时保留原来的错误
+                }
             }
             throw e;
         }
@@ -78,8 +82,12 @@ export default async function parallel<T>(
                 });
             } catch (e: any) {
                 if (isAnyError(e)) {
-                    // @ts-ignore
-                    (e.cause ?? (e.cause = {})).index = i;
+                    try {
+                        // @ts-ignore
+                        (e.cause ?? (e.cause = {})).index = i;
+                    } catch {
+                        // 回调函数抛出的错误是只读的，此时保留原来的错误
+                    }
                 }
                 throw e;
             }
-- 
2.43.0


From 896371c0a8fba49c0cf3498d25a495728f9bee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 144/160] fix: request uses the agent, signal and lookup
 options as given and accepts frozen options

---
 packages/request/src/request/request.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 31510f2..8cf25c1 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -8,7 +8,6 @@ import {
     isObjectFilled,
     isStringFilled
 } from '@curong/types';
-import { copy } from '@curong/util';
 
 import type { RequestHandler, RequestOptions, RequestResult } from '../types';
 
@@ -187,7 +186,8 @@ export default async function request(
         url = undefined;
     }
 
-    const config = copy(options);
+    // 只进行浅拷贝，像 `agent`、`signal` 和 `lookup` 这样的选项必须原样使用
+    const config = { ...options };
 
     const requestFn = optionsHandler(url, config);
     const { body, delay, maxRedirects } = config;
-- 
2.43.0


From ce6755fb626080f8b4f80d8138628f3fdb2ad05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 145/160] fix: request sends the options it was called with to
 redirected locations, too

---
 packages/request/src/request/request.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8cf25c1..3029a35 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -186,6 +186,9 @@ export default async function request(
         url = undefined;
     }
 
+    // 重定向时还会用到这些配置，在此期间，用户可能会修改自己的配置对象
+    options = { ...options, headers: { ...options?.headers } };
+
     // 只进行浅拷贝，像 `agent`、`signal` 和 `lookup` 这样的选项必须原样使用
     const config = { ...options };
 
-- 
2.43.0


From 9a2c10a02214800fc96f10ee7d9cc8c6dc82ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 146/160] fix: object stringify keeps properties named
 __proto__

---
 packages/object/src/stringify.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index de91fa7..114f5c2 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -53,7 +53,13 @@ const safeStringifyReplacer = (
 
             for (let i = 0, k, len = keys.length; i < len; i++) {
                 k = keys[i];
-                newValue[k] = internal(value[k], path.concat(k));
+                // 直接赋值会使名为 `__proto__` 的属性变为原型
+                Object.defineProperty(newValue, k, {
+                    value: internal(value[k], path.concat(k)),
+                    writable: true,
+                    enumerable: true,
+                    configurable: true
+                });
             }
         }
 
-- 
2.43.0


From 3489d1d337efc3aaa40d6c7ce8206c2b75c3e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 147/160] fix: toLowerCaseKey keeps properties named __proto__
 instead of changing the prototype

---
 packages/object/src/keys/toLowerCaseKey.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/object/src/keys/toLowerCaseKey.ts b/packages/object/src/keys/toLowerCaseKey.ts
index d7b399e..785decc 100644
--- a/packages/object/src/keys/toLowerCaseKey.ts
+++ b/packages/object/src/keys/toLowerCaseKey.ts
@@ -26,22 +26,29 @@ export default function toLowerCaseKey(
     isCover: boolean = true
 ): ObjectType {
     const set = new Set();
+    // 直接赋值会使名为 `__proto__` 的属性变为原型
+    const define = (memo: ObjectType, key: PropertyKey, value: any) =>
+        Object.defineProperty(memo, key, {
+            value,
+            writable: true,
+            enumerable: true,
+            configurable: true
+        });
 
     return Reflect.ownKeys(object).reduce((memo, key) => {
         const value = object[key];
 
         // 如果属性名是数字或者 `symbol`，就直接赋值
         if (isSymbol(key) || isNumber(key)) {
-            memo[key] = value;
-            return memo;
+            return define(memo, key, value);
         }
 
         key = key.toLocaleLowerCase();
 
         if (isCover) {
-            memo[key] = value;
+            define(memo, key, value);
         } else if (!set.has(key)) {
-            memo[key] = value;
+            define(memo, key, value);
             set.add(key);
         }
 
-- 
2.43.0


From 412f60eca3ec128caaccc6082852fe891e775c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 148/160] fix: array toObject keeps keys named __proto__
 instead of changing the prototype

---
 packages/array/src/convert/toObject.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/array/src/convert/toObject.ts b/packages/array/src/convert/toObject.ts
index 1b20eb4..12b2923 100644
--- a/packages/array/src/convert/toObject.ts
+++ b/packages/array/src/convert/toObject.ts
@@ -30,7 +30,13 @@ export default function toObject<T, U>(
     const result: Record<string, U> = {};
 
     for (const value of array) {
-        result[makeKey(value)] = makeValue(value);
+        // 直接赋值会使名为 `__proto__` 的属性变为原型
+        Object.defineProperty(result, makeKey(value), {
+            value: makeValue(value),
+            writable: true,
+            enumerable: true,
+            configurable: true
+        });
     }
 
     return result;
-- 
2.43.0


From 2edde8b4b53b5fc18a24e50a34aea4428d891954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 149/160] fix: cookie parse keeps a cookie named __proto__

---
 packages/cookie/src/cookie/parse.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 6428da3..110c3a0 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -68,6 +68,14 @@ export default function parseCookie(
     decode?: ParseCookieOptions['decode']
 ): { [key: string]: string } {
     const result: { [key: string]: string } = {};
+    // 直接赋值会丢失名为 `__proto__` 的 `cookie`
+    const setResult = (key: string, value: string) =>
+        Object.defineProperty(result, key, {
+            value,
+            writable: true,
+            enumerable: true,
+            configurable: true
+        });
 
     if (!isStringFilled(cookie) || !cookie.includes('=')) {
         throw new TypeError(`[parse]: cookie不是一个字符串, "${cookie}"`);
@@ -99,11 +107,11 @@ export default function parseCookie(
 
         if (isString(key)) {
             if (isString(value)) {
-                result[key] = value;
+                setResult(key, value);
                 key = null;
                 value = null;
             } else if (i === len - 1) {
-                result[key] = getDecode(cookie.slice(star), decode);
+                setResult(key, getDecode(cookie.slice(star), decode));
             }
         }
     }
-- 
2.43.0


From e3e2b34f7926bd5d69b10712da03285d91403d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 150/160] fix: setCookie parse keeps a cookie named __proto__
 in its map

---
 packages/cookie/src/setCookie/parse.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 1a8ff6b..e62e291 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -168,8 +168,13 @@ export default function parseSetCookie(
     return cookies.reduce(
         (cookie, str) => {
             const v = parseChunk(str, decode);
-            cookie[v.name] = v;
-            return cookie;
+            // 直接赋值会丢失名为 `__proto__` 的 `cookie`
+            return Object.defineProperty(cookie, v.name, {
+                value: v,
+                writable: true,
+                enumerable: true,
+                configurable: true
+            });
         },
         {} as Record<string, SetCookieItem>
     );
-- 
2.43.0


From fef2922218aa9b3351e3e29eb8a1644392004ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 151/160] fix: setCookie parse keeps the name and value of the
 cookie when attributes carry these names

---
 packages/cookie/src/setCookie/parse.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index e62e291..0159112 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -37,6 +37,11 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
             cookie.sameSite = value;
             break;
 
+        // 属性不能覆盖 `cookie` 自己的名称和值
+        case 'name':
+        case 'value':
+            break;
+
         default:
             cookie[key] = value;
             break;
-- 
2.43.0


From 4f2a1950a40b4f3563b2064bbeedfd0394796bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 152/160] fix: cookie parse keeps a value that is a single
 quote

---
 packages/cookie/src/cookie/parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 110c3a0..08f66dc 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -19,7 +19,7 @@ function getDecode(
     value = value.trim();
 
     // 如果值包含双引号
-    if (value.startsWith('"') && value.endsWith('"')) {
+    if (value.length > 1 && value.startsWith('"') && value.endsWith('"')) {
         value = value.slice(1, -1).trim();
     }
 
-- 
2.43.0


From f1972b03a4df8559250067eaabcabaab1ae509f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 153/160] fix: request rejects with the error a handler throws

---
 packages/request/src/request/request.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 3029a35..15cc8f4 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -199,6 +199,17 @@ export default async function request(
     let req: ClientRequest;
 
     const getF = (resolve: any, reject: any) => {
+        /** 执行用户的回调函数，如果出现错误，则拒绝并停止接收数据 */
+        const callHandler = (name: keyof RequestHandler, ...args: any[]) => {
+            try {
+                return handlers[name](...args);
+            } catch (error) {
+                reject(error);
+
+                return true;
+            }
+        };
+
         /** 发起网络请求 */
         req = requestFn(config, (res: IncomingMessage) => {
             if (req.destroyed) {
@@ -312,13 +323,13 @@ export default async function request(
             };
 
             /** 处理响应头 */
-            if (handlers.header && handlers.header(res, config)) {
+            if (handlers.header && callHandler('header', res, config)) {
                 return resolve(returns());
             }
 
             /** 接收响应体 */
             serialStream.on('data', (chunk: Buffer) => {
-                if (handlers.data && handlers.data(chunk, res, config)) {
+                if (handlers.data && callHandler('data', chunk, res, config)) {
                     // 不再接收剩余的(解压后的)数据
                     serialStream.destroy();
                     return resolve(returns());
-- 
2.43.0


From 640c9047ad8e1e9fa98b04570c03adaab0c8f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 154/160] fix: readlineStream rejects with the error its
 callback throws

---
 packages/fs/src/readlineStream.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 51a5ef4..d57e1a7 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -66,7 +66,17 @@ export default async function readlineStream(
         input.once('error', reject);
         stream.once('error', reject);
 
-        stream.on('line', callback as ReadlineStreamCallback);
+        stream.on('line', line => {
+            try {
+                (callback as ReadlineStreamCallback)(line);
+            } catch (error) {
+                // 回调函数出错后，不再读取剩余的内容
+                reject(error);
+                stream.removeAllListeners('line');
+                stream.close();
+                input.destroy();
+            }
+        });
 
         stream.once('close', () => {
             stream.removeAllListeners();
-- 
2.43.0


From 85917b9b09a8c3aeaef4cd9bf0061c6b7ba118e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 155/160] fix: kill reports that the child processes cannot be
 listed

---
 packages/os/src/kill.ts | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 159786b..1c061b1 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -68,6 +68,8 @@ const buildProcessTree = (
         allData += data.toString('ascii');
     });
 
+    ps.on('error', cb);
+
     ps.on('close', code => {
         pidsToProcess.delete(parentPid);
 
@@ -134,6 +136,26 @@ function kill(
     tree[pid] = [];
     pidsToProcess.add(pid);
 
+    // 无法列出子进程时，不能只终止一部分进程
+    let failed = false;
+    const done = (error?: any) => {
+        if (failed) {
+            return;
+        }
+
+        if (error) {
+            failed = true;
+
+            if (callback) {
+                return callback(error);
+            }
+
+            throw error;
+        }
+
+        killAll(tree, signal as any, callback);
+    };
+
     switch (platform) {
         case 'win32':
             exec(`taskkill /T /F /PID ${pid}`, callback);
@@ -145,7 +167,7 @@ function kill(
                 tree,
                 pidsToProcess,
                 pid => spawn('pgrep', ['-P', pid]),
-                () => killAll(tree, signal as any, callback)
+                done
             );
             break;
 
@@ -163,7 +185,7 @@ function kill(
                         pid
                     ]);
                 },
-                () => killAll(tree, signal as any, callback)
+                done
             );
             break;
 
-- 
2.43.0


From 686e8247a6fdd30990ae2920b9c6d4ebef9b4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 156/160] fix: request sends the credentials of a URL without a
 password

---
 packages/request/src/request/options.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index e49cdb6..3903aec 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -182,7 +182,7 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-        username && password
+        username || password
             ? decodeURIComponent(`${username}:${password}`)
             : undefined;
 };
-- 
2.43.0


From 62033e876dbb01e1d986c14efebb51a80dca875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:47 +0000
Subject: [PATCH 157/160] fix: destPath maps a file behind a shortcut whose
 folder has the source folder in its path

---
 packages/fs/src/destPath.ts | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/packages/fs/src/destPath.ts b/packages/fs/src/destPath.ts
index 6960b5a..fd91402 100644
--- a/packages/fs/src/destPath.ts
+++ b/packages/fs/src/destPath.ts
@@ -9,6 +9,16 @@ import mkdir from './mkdir';
 import readLnk from './readLnk';
 import type { DestPathOptions } from './types';
 
+/**
+ * 判断一个路径是否是文件夹本身，或位于该文件夹之内
+ *
+ * @param relativePath 路径相对于文件夹的路径
+ * @returns 如果在文件夹内则返回 `true`，否则返回 `false`
+ */
+function isInside(relativePath: string): boolean {
+    return relativePath.split(sep)[0] !== '..' && !isAbsolute(relativePath);
+}
+
 /**
  * 获取目标路径和目标文件夹
  *
@@ -55,7 +65,7 @@ export default async function destPath(
     let destPath = '';
 
     // 有可能是通过系统的快捷方式访问的软连接和或硬链接
-    if (!filePath.includes(srcDir)) {
+    if (!isInside(relative(srcDir, filePath))) {
         // 重新读取该文件夹下的文件或目录，并且遍历它
         const pathList: string[] = await promises.readdir(srcDir);
 
@@ -70,12 +80,7 @@ export default async function destPath(
 
             // 当前文件不是通过这个快捷方式访问的
             const relativePath = relative(targetPath, filePath);
-            if (
-                relativePath.split(sep)[0] === '..' ||
-                isAbsolute(relativePath)
-            ) {
-                continue;
-            }
+            if (!isInside(relativePath)) continue;
 
             // 目标文件夹 + 当前快捷方式的名字 + 相对路径 = 最终的路径(包含文件名和后缀)
             destPath = join(
-- 
2.43.0


From 0e4b52eb604d6e2392a404755e533f3843105f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 158/160] fix: copyAttrs copies an attribute named __proto__

---
 packages/util/src/copyAttrs.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copyAttrs.ts b/packages/util/src/copyAttrs.ts
index 1560be0..307e589 100644
--- a/packages/util/src/copyAttrs.ts
+++ b/packages/util/src/copyAttrs.ts
@@ -35,7 +35,20 @@ export default function copyAttrs(
     const attrs = allAttrs(src);
 
     return (lacked ? lackAttrs(dest, attrs) : attrs).reduce((memo, key) => {
-        memo[key] = copy(src[key]);
+        const value = copy(src[key]);
+
+        // 直接赋值会使名为 `__proto__` 的属性变为原型
+        if (key === '__proto__') {
+            Object.defineProperty(memo, key, {
+                value,
+                writable: true,
+                enumerable: true,
+                configurable: true
+            });
+        } else {
+            memo[key] = value;
+        }
+
         return memo;
     }, dest);
 }
-- 
2.43.0


From 806d870bf77f43619615559a9fa3f3de340672cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 159/160] fix: the trim functions end when an extra character
 is given twice or is in a selected group

---
 packages/string/src/trim/trimRegSource.ts | 28 ++++++++++++-----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 5483de5..9238661 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -36,20 +36,22 @@ export const trimRegSource = (
         { is: () => isTrue(space), ret: () => ' ' },
         { is: () => isTrue(zeroWidth), ret: () => zeroWidthRegSource },
         { is: () => isTrue(likeSpace), ret: () => likeSpaceRegSource },
-        { is: () => isTrue(control), ret: () => controlRegSource },
-        {
-            is: () => isStringFilled(extras) || isStringArray(extras),
-            ret: () =>
-                Array.from([extras].flat().join(''), v =>
-                    toRegExpSource(v)
-                ).join('|') || '[]'
-        }
+        { is: () => isTrue(control), ret: () => controlRegSource }
     ];
 
-    const source = conditions
-        .filter(v => v.is())
-        .map(v => v.ret())
-        .join('|');
+    const sources = conditions.filter(v => v.is()).map(v => v.ret());
+
+    if (isStringFilled(extras) || isStringArray(extras)) {
+        const groupsReg = new RegExp(`^(?:${sources.join('|') || '[]'})$`);
+
+        // 如果同一个字符在多个分支中，会导致正则表达式的回溯次数呈指数级增长，
+        // 所以要排除掉重复的字符以及前面的分支已经包含的字符
+        for (const char of new Set([extras].flat().join(''))) {
+            if (!groupsReg.test(char)) {
+                sources.push(toRegExpSource(char));
+            }
+        }
+    }
 
-    return `(?:${source || '[]'})+`;
+    return `(?:${sources.join('|') || '[]'})+`;
 };
-- 
2.43.0


From 853029390e875a3d20040e3c7ae9b1afb0719f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 160/160] fix: lackAttrs finds an attribute that is asked for
 by number

---
 packages/util/src/lackAttrs.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/lackAttrs.ts b/packages/util/src/lackAttrs.ts
index bde5ada..38fdae3 100644
--- a/packages/util/src/lackAttrs.ts
+++ b/packages/util/src/lackAttrs.ts
@@ -30,5 +30,8 @@ export default function lackAttrs(
 
     const attrSet = new Set(allAttrs(value));
 
-    return attributes.filter(v => !attrSet.has(v));
+    // 数字属性名在对象中是以字符串形式存在的
+    return attributes.filter(
+        v => !attrSet.has(typeof v === 'number' ? String(v) : v)
+    );
 }
-- 
2.43.0

