From faddc0d4ff8218d50348811258121a5040c5d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 01/57] mc hook: let a driver decide GC safe points (cfg
 ruruby_mc)

---
 ruruby/src/alloc.rs       | 54 +++++++++++++++++++++++++++++++++++++++
 ruruby/src/vm/executor.rs |  7 +++++
 2 files changed, 61 insertions(+)

diff --git a/ruruby/src/alloc.rs b/ruruby/src/alloc.rs
index 90b6c93..aa70fe2 100644
--- a/ruruby/src/alloc.rs
+++ b/ruruby/src/alloc.rs
@@ -26,6 +26,55 @@ thread_local!(
     pub static ALLOC: RefCell<Allocator<RValue>> = RefCell::new(Allocator::new());
 );
 
+/// Control of garbage collection for model checking (only with `--cfg ruruby_mc`).
+///
+/// A driver decides, for every GC safe point, whether a collection is executed there.
+#[cfg(ruruby_mc)]
+pub mod mc {
+    use std::cell::RefCell;
+
+    #[derive(Default)]
+    pub struct GcControl {
+        /// The driver owns the decision. If false, the ordinary policy applies.
+        pub controlled: bool,
+        /// Collect at every safe point.
+        pub every: bool,
+        /// Collect at these safe points (sorted).
+        pub points: Vec<u64>,
+        /// Number of safe points passed.
+        pub count: u64,
+        /// Number of collections executed.
+        pub collected: u64,
+        /// Never reuse swept cells.
+        pub quarantine: bool,
+    }
+
+    thread_local!(
+        pub static GC_CONTROL: RefCell<GcControl> = RefCell::new(GcControl::default());
+    );
+
+    /// Called at each GC safe point. Returns None if GC is not under control of a driver.
+    pub(crate) fn safe_point() -> Option<bool> {
+        GC_CONTROL.with(|c| {
+            let mut c = c.borrow_mut();
+            if !c.controlled {
+                return None;
+            }
+            let here = c.count;
+            c.count += 1;
+            let gc = c.every || c.points.binary_search(&here).is_ok();
+            if gc {
+                c.collected += 1;
+            }
+            Some(gc)
+        })
+    }
+
+    pub(crate) fn quarantine() -> bool {
+        GC_CONTROL.with(|c| c.borrow().quarantine)
+    }
+}
+
 const SIZE: usize = 64;
 const GCBOX_SIZE: usize = std::mem::size_of::<RValue>();
 const PAGE_LEN: usize = 64 * SIZE;
@@ -234,6 +283,11 @@ impl<T: GCBox> Allocator<T> {
             assert_eq!(self.free_list_count, self.check_free_list());
             eprintln!("free list: {}", self.free_list_count);
         }
+        #[cfg(ruruby_mc)]
+        if mc::quarantine() {
+            self.free = None;
+            self.free_pages.clear();
+        }
         self.alloc_flag = false;
         self.count += 1;
         let malloced = MALLOC_AMOUNT.load(std::sync::atomic::Ordering::SeqCst);
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index ba546b4..e011111 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -346,6 +346,13 @@ impl VM {
     pub fn checked_gc(&mut self) {
         #[cfg(feature = "perf")]
         self.globals.perf.get_perf(Perf::GC);
+        #[cfg(ruruby_mc)]
+        if let Some(gc) = crate::alloc::mc::safe_point() {
+            if gc {
+                self.gc();
+            }
+            return;
+        }
         #[cfg(not(feature = "gc-stress"))]
         {
             self.gc_count += 1;
-- 
2.43.0


From ae6a0889bead86e586208be977621685c02dbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 02/57] fix: integer shifts lose high bits and the sign at the
 word border

---
 ruruby/src/arith.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index f77d14d..cd1c47d 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -251,10 +251,10 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shr(rhs as u32) {
             Some(i) => Value::integer(i),
-            None => Value::integer(0),
+            None => Value::integer(if lhs < 0 { -1 } else { 0 }),
         }
     } else {
-        Value::bignum(lhs.to_bigint().unwrap() >> rhs)
+        Value::integer(if lhs < 0 { -1 } else { 0 })
     }
 }
 
@@ -262,8 +262,9 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
 fn shl_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shl(rhs as u32) {
-            Some(i) => Value::integer(i),
-            None => {
+            // No significant bit (nor the sign) was shifted out.
+            Some(i) if i >> rhs == lhs => Value::integer(i),
+            _ => {
                 let n = lhs.to_bigint().unwrap() << rhs;
                 Value::bignum(n)
             }
-- 
2.43.0


From ea4d0f2b47bc8039502c24fc943bd12d6d0c5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 03/57] fix: Integer#[] ignores the sign beyond bit 63

---
 ruruby/src/builtin/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index e2cf4b6..19b2681 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -169,10 +169,10 @@ fn index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             return Ok(Value::integer(0));
         }
         let index = vm[0].coerce_to_fixnum("Index")?;
-        let val = if index < 0 || 63 < index {
+        let val = if index < 0 {
             0
         } else {
-            (i >> index) & 1
+            (i >> index.min(63)) & 1
         };
         Ok(Value::integer(val))
     } else if let Some(i) = self_val.as_bignum() {
-- 
2.43.0


From 61736f36e2b03005c41c5e45ff668a4411c2802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 04/57] fix: ^ and ~ are undefined for large integers

---
 ruruby/src/builtin/integer.rs | 16 +++++++++++++++-
 ruruby/src/vm/executor/ops.rs |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 19b2681..cf69596 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -2,7 +2,7 @@ use crate::*;
 use num::Integer;
 use num::{bigint::ToBigInt, BigInt, Signed, ToPrimitive, Zero};
 use std::convert::TryInto;
-use std::ops::{BitAnd, BitOr};
+use std::ops::{BitAnd, BitOr, BitXor};
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under(BuiltinClass::numeric());
@@ -26,6 +26,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "<<", shl);
     class.add_builtin_method_by_str(globals, "&", band);
     class.add_builtin_method_by_str(globals, "|", bor);
+    class.add_builtin_method_by_str(globals, "^", bxor);
+    class.add_builtin_method_by_str(globals, "~", bnot);
 
     class.add_builtin_method_by_str(globals, "abs", abs);
     class.add_builtin_method_by_str(globals, "floor", floor);
@@ -296,6 +298,18 @@ macro_rules! bit_ops {
 
 bit_ops!(band, bitand);
 bit_ops!(bor, bitor);
+bit_ops!(bxor, bitxor);
+
+fn bnot(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    if let Some(i) = self_val.as_fixnum() {
+        Ok(Value::integer(!i))
+    } else if let Some(n) = self_val.as_bignum() {
+        Ok(Value::bignum(-(n + BigInt::from(1))))
+    } else {
+        unreachable!()
+    }
+}
 
 #[test]
 fn integer_bitwise_ops() {
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 8afa8e2..c33743b 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -243,7 +243,7 @@ impl VM {
         let lhs = self.stack_pop();
         let v = match lhs.unpack() {
             RV::Integer(lhs) => Value::integer(!lhs),
-            _ => return Err(VMError::undefined_method(IdentId::get_id("~"), lhs)),
+            _ => return self.invoke_send0(IdentId::get_id("~"), lhs),
         };
         Ok(VMResKind::Return(v))
     }
-- 
2.43.0


From bd9057c8b5ed5b497853187031d220fec4e8fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 05/57] fix: Integer#digits stops at the first zero digit and
 panics for large integers

---
 ruruby/src/builtin/integer.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index cf69596..f57f632 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -830,18 +830,29 @@ fn digits(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             i => i,
         }
     };
-    let mut ary = vec![];
-    let mut self_ = self_val.as_fixnum().unwrap();
-    if self_ < 0 {
-        return Err(RubyError::math_domain("Out of domain."));
+    if base == 1 {
+        return Err(RubyError::argument("Invalid radix 1."));
     }
-    loop {
-        let r = self_ % base;
-        self_ = self_ / base;
-        if r == 0 {
-            break;
+    let mut ary = vec![];
+    if let Some(mut self_) = self_val.as_fixnum() {
+        if self_ < 0 {
+            return Err(RubyError::math_domain("Out of domain."));
+        }
+        while self_ != 0 {
+            ary.push(Value::integer(self_ % base));
+            self_ = self_ / base;
+        }
+    } else if let Some(n) = self_val.as_bignum() {
+        if n.is_negative() {
+            return Err(RubyError::math_domain("Out of domain."));
+        }
+        let mut self_ = n.clone();
+        while !self_.is_zero() {
+            ary.push(Value::bignum(&self_ % base));
+            self_ = self_ / base;
         }
-        ary.push(Value::integer(r));
+    } else {
+        unreachable!()
     }
     if ary.len() == 0 {
         ary.push(Value::integer(0))
-- 
2.43.0


From d101190311151066dd2cbe439358c7eacaa51511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 06/57] fix: Integer#div rounds through floating point

---
 ruruby/src/value/real.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index f36f96a..c4e5d3d 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -57,6 +57,10 @@ impl Real {
     }
 
     pub(crate) fn quotient(self, other: Self) -> Self {
+        // Quotient of integers is exact.
+        if !matches!(self, Real::Float(_)) && !matches!(other, Real::Float(_)) {
+            return self / other;
+        }
         let quo = (self.to_f64() / other.to_f64()).floor();
         match ToPrimitive::to_i64(&quo) {
             Some(i) => Real::Integer(i),
-- 
2.43.0


From 455927ba200b69d5a2e62d42f7221ff323538c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 07/57] fix: Integer() rejects values beyond 64 bits

---
 ruruby/src/builtin/kernel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 0d82b16..dff4615 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -327,8 +327,8 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         RV::Integer(num) => num,
         RV::Float(num) => num as i64,
         RV::Object(obj) => match obj.kind() {
-            ObjKind::STRING => match obj.string().parse::<i64>() {
-                Some(num) => num,
+            ObjKind::STRING => match obj.string().parse::<num::BigInt>() {
+                Some(num) => return Ok(Value::bignum(num)),
                 None => {
                     let inspect = vm.val_inspect(arg0)?;
                     return Err(RubyError::argument(format!(
@@ -337,6 +337,7 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
                     )));
                 }
             },
+            ObjKind::BIGNUM => return Ok(arg0),
             _ => {
                 return Err(VMError::no_implicit_conv(arg0, "Integer"));
             }
-- 
2.43.0


From 24c3448037eca163e0c08186cefc9a7e9de7e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 08/57] fix: String#to_i gives 0 for numbers with trailing text
 or beyond 64 bits

---
 ruruby/src/builtin/string.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index dac6650..1c354ca 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -957,11 +957,26 @@ fn toi(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Ok(s) => s,
         Err(_) => return Ok(Value::integer(0)),
     };
-    let i: i64 = match self_.parse() {
-        Ok(i) => i,
-        Err(_) => 0,
+    // An optional sign and the leading digits, which single underscores may separate.
+    let s = self_.trim_start();
+    let (neg, s) = match s.strip_prefix('-') {
+        Some(s) => (true, s),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
     };
-    Ok(Value::integer(i))
+    let mut digits = String::new();
+    let mut underscore = true;
+    for c in s.chars() {
+        match c {
+            '0'..='9' => {
+                digits.push(c);
+                underscore = false;
+            }
+            '_' if !underscore => underscore = true,
+            _ => break,
+        }
+    }
+    let i = digits.parse::<num::BigInt>().unwrap_or_default();
+    Ok(Value::bignum(if neg { -i } else { i }))
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-- 
2.43.0


From 579f8d81d18cf5b249c64221dfe7681d434f385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 09/57] fix: literal bit reference on a negative integer beyond
 bit 63

---
 ruruby/src/vm/executor/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index c33743b..692f250 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -588,7 +588,7 @@ impl VM {
             },
             None => {
                 if let Some(i) = receiver.as_fixnum() {
-                    let val = if 63 < idx { 0 } else { (i >> idx) & 1 };
+                    let val = (i >> idx.min(63)) & 1;
                     return Ok(VMResKind::Return(Value::integer(val)));
                 }
             }
-- 
2.43.0


From b77642542075bd9b5bd8f9c757ccfb19c49672fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 10/57] fix: raise drops the exception class when a message is
 given and uses StandardError for plain messages

---
 ruruby/src/builtin/kernel.rs | 42 +++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index dff4615..1c6c86e 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -213,29 +213,31 @@ fn dir(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// fail(error_type, message = nil, backtrace = caller(0), cause: $!) -> ()
 fn raise(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 2)?;
-    match args.len() {
-        0 => Err(RubyError::none("")),
-        1 => {
-            let arg0 = vm[0];
-            if let Some(s) = arg0.as_string() {
-                Err(RubyError::none(s))
-            } else if arg0.is_class() {
-                if arg0.is_exception_class() {
-                    let method = arg0.get_method_or_nomethod(&mut vm.globals, IdentId::NEW)?;
-                    vm.globals.val = vm.eval_method0(method, arg0)?;
-                    Err(RubyError::value())
-                } else {
-                    Err(RubyError::typeerr("Exception class/object expected."))
-                }
-            } else if arg0.if_exception().is_some() {
-                vm.globals.val = arg0;
-                Err(RubyError::value())
+    let exception = if args.len() == 0 {
+        let class = vm.globals.get_toplevel_constant("RuntimeError");
+        Value::exception(class.into_module(), RubyError::none(""))
+    } else {
+        let arg0 = vm[0];
+        if arg0.is_class() && arg0.is_exception_class() {
+            let method = arg0.get_method_or_nomethod(&mut vm.globals, IdentId::NEW)?;
+            if args.len() == 1 {
+                vm.eval_method0(method, arg0)?
             } else {
-                Err(RubyError::typeerr("Exception class/object expected."))
+                let msg = vm[1];
+                vm.eval_method(method, arg0, &[msg], &Args2::new(1))?
             }
+        } else if args.len() == 1 && arg0.as_string().is_some() {
+            let class = vm.globals.get_toplevel_constant("RuntimeError");
+            let msg = arg0.as_string().unwrap();
+            Value::exception(class.into_module(), RubyError::none(msg))
+        } else if args.len() == 1 && arg0.if_exception().is_some() {
+            arg0
+        } else {
+            return Err(RubyError::typeerr("Exception class/object expected."));
         }
-        _ => Err(RubyError::none(vm[1].clone().expect_string("2nd arg")?)),
-    }
+    };
+    vm.globals.val = exception;
+    Err(RubyError::value())
 }
 
 /// rand(max = 0) -> Integer | Float
-- 
2.43.0


From c6429ec4a3c6ddf38eea3fd8bd7de9c9029d14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 11/57] fix: an error at an instruction without its own
 location panics

---
 ruruby/src/globals/method.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 7de7f9a..f468114 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -564,13 +564,8 @@ impl ISeqInfo {
     pub fn get_loc(&self, pc: ISeqPos) -> Loc {
         match self.iseq_sourcemap.iter().find(|x| x.0 == pc) {
             Some((_, loc)) => *loc,
-            None => {
-                panic!(
-                    "Bad sourcemap. pc={} {:?}",
-                    pc.into_usize(),
-                    self.iseq_sourcemap
-                );
-            }
+            // Not every instruction has its own location.
+            None => self.loc,
         }
     }
 }
-- 
2.43.0


From e2ea6bc09fb6e5e73416c2876864cc2580e4889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 12/57] fix: ensure clauses, non-local exits and pending
 operands

ensure clauses were skipped when an exception left a begin without a
matching rescue clause and by break, next and nested return; break and
return out of a block only left the frame which yielded; a rescue dropped
the operands pending on the stack.
---
 ruruby-common/src/code_context.rs   |  18 +-
 ruruby-common/src/error.rs          |   4 +
 ruruby-common/src/lvar_collector.rs |   6 +-
 ruruby-common/src/vm_inst.rs        |   3 +
 ruruby/src/builtin/kernel.rs        |   1 -
 ruruby/src/codegen.rs               | 306 ++++++++++++++++------------
 ruruby/src/globals.rs               |   2 +-
 ruruby/src/vm/executor.rs           | 169 ++++++++++++---
 ruruby/src/vm/executor/frame.rs     |  24 ++-
 ruruby/src/vm/executor/method.rs    |   2 +-
 ruruby/src/vm/executor/opt_core.rs  |  53 ++---
 11 files changed, 375 insertions(+), 213 deletions(-)

diff --git a/ruruby-common/src/code_context.rs b/ruruby-common/src/code_context.rs
index ac26b01..52b3ecf 100644
--- a/ruruby-common/src/code_context.rs
+++ b/ruruby-common/src/code_context.rs
@@ -23,13 +23,17 @@ pub struct ExceptionEntry {
     /// end position in ISeq.
     pub end: ISeqPos,
     pub dest: ISeqPos,
+    /// local variable which holds the stack height at the beginning of the clause.
+    pub sp: Option<LvarId>,
 }
 
 /// Type of each exception.
 #[derive(Debug, Clone, PartialEq)]
 pub enum ExceptionType {
-    /// When raised, exec stack is cleared.
+    /// When raised, exec stack is restored to the height saved in `sp`.
     Rescue,
+    /// Same as Rescue, but non-local exits (break, return) go through it as well.
+    Ensure,
     /// When raised, exec stack does not change.
     Continue,
 }
@@ -44,12 +48,19 @@ impl fmt::Debug for ExceptionEntry {
 }
 
 impl ExceptionEntry {
-    pub fn new_rescue(start: ISeqPos, end: ISeqPos, dest: ISeqPos) -> Self {
+    pub fn new_rescue(
+        ty: ExceptionType,
+        start: ISeqPos,
+        end: ISeqPos,
+        dest: ISeqPos,
+        sp: LvarId,
+    ) -> Self {
         Self {
-            ty: ExceptionType::Rescue,
+            ty,
             start,
             end,
             dest,
+            sp: Some(sp),
         }
     }
 
@@ -59,6 +70,7 @@ impl ExceptionEntry {
             start,
             end,
             dest,
+            sp: None,
         }
     }
 
diff --git a/ruruby-common/src/error.rs b/ruruby-common/src/error.rs
index 50e2006..e4bd6b6 100644
--- a/ruruby-common/src/error.rs
+++ b/ruruby-common/src/error.rs
@@ -118,6 +118,10 @@ impl RubyError {
         matches!(&self.kind, RubyErrorKind::BlockReturn)
     }
 
+    pub fn is_method_return(&self) -> bool {
+        matches!(&self.kind, RubyErrorKind::MethodReturn)
+    }
+
     pub fn is_exception(&self) -> bool {
         matches!(&self.kind, RubyErrorKind::Exception)
     }
diff --git a/ruruby-common/src/lvar_collector.rs b/ruruby-common/src/lvar_collector.rs
index 63d7b4f..ad1b618 100644
--- a/ruruby-common/src/lvar_collector.rs
+++ b/ruruby-common/src/lvar_collector.rs
@@ -175,10 +175,14 @@ impl LvarTable {
         self.0.iter().position(|i| *i == id).map(LvarId::from)
     }
 
-    fn push(&mut self, id: IdentId) {
+    pub fn push(&mut self, id: IdentId) {
         self.0.push(id)
     }
 
+    pub fn iter(&self) -> impl Iterator<Item = &IdentId> {
+        self.0.iter()
+    }
+
     fn get(&self, i: usize) -> Option<IdentId> {
         self.0.get(i).cloned()
     }
diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 11ca7db..66cebcc 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -55,6 +55,7 @@ impl Inst {
     pub const TO_S: u8 = 85;
     pub const SINKN: u8 = 86;
     pub const TOPN: u8 = 87;
+    pub const SAVE_SP: u8 = 88;
 
     pub const DEF_CLASS: u8 = 90;
     pub const DEF_SCLASS: u8 = 91;
@@ -176,6 +177,7 @@ impl Inst {
             Inst::JMP_F_LEI => "JMP_F_LEI",
 
             Inst::SET_LOCAL => "SET_LOCAL",
+            Inst::SAVE_SP => "SAVE_SP",
             Inst::GET_LOCAL => "GET_LOCAL",
             Inst::SET_DYNLOCAL => "SET_DYNLOCAL",
             Inst::GET_DYNLOCAL => "GET_DYNLOCAL",
@@ -288,6 +290,7 @@ impl Inst {
                                         // operand
             Inst::SET_LOCAL           // LvarId: u32
             | Inst::GET_LOCAL           // LVarId: u32
+            | Inst::SAVE_SP             // LVarId: u32
             | Inst::SET_CONST           // IdentId: u32
             | Inst::CHECK_CONST         // IdentId: u32
             | Inst::CHECK_SCOPE         // IdentId: u32
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 1c6c86e..776be8b 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -255,7 +255,6 @@ fn loop_(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         match vm.eval_block0(&block) {
             Ok(_) => {}
             Err(err) => match &err.kind {
-                RubyErrorKind::BlockReturn => return Ok(vm.globals.val),
                 RubyErrorKind::RuntimeErr {
                     kind: RuntimeErrKind::StopIteration,
                     ..
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index f6108ca..491b24f 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -117,20 +117,98 @@ impl Codegen {
         self.context_stack.last_mut().unwrap()
     }
 
-    fn push_jump_dest(&mut self, has_ensure: bool) {
-        self.context_mut()
-            .jump_dest
-            .push(LocalJumpDest::new(has_ensure));
+    /// Enter begin clause which has rescue clauses or an ensure clause.
+    fn push_begin(&mut self, iseq: &mut ISeq, ensure: Option<Node>) {
+        let loop_depth = self.loop_stack.len();
+        let context = self.context_mut();
+        let id = IdentId::get_id_from_string(format!("%sp{}", context.begin_stack.len()));
+        let sp = match context.lvar_info.get_lvarid(id) {
+            Some(sp) => sp,
+            None => {
+                context.lvar_info.push(id);
+                context.lvar_info.get_lvarid(id).unwrap()
+            }
+        };
+        iseq.push(Inst::SAVE_SP);
+        iseq.push32(sp.as_u32());
+        let start = iseq.current();
+        self.context_mut().begin_stack.push(BeginInfo {
+            sp,
+            start,
+            ensure,
+            loop_depth,
+            holes: vec![],
+        });
     }
 
-    fn pop_jump_dest(&mut self) -> LocalJumpDest {
-        self.context_mut().jump_dest.pop().unwrap()
+    /// Leave begin clause, and register the handler (`dest`) to the exception table.
+    /// Returns the entries which should be registered.
+    fn pop_begin(&mut self, iseq: &ISeq, ty: ExceptionType) -> Vec<ExceptionEntry> {
+        let info = self.context_mut().begin_stack.pop().unwrap();
+        let mut entries = vec![];
+        let mut start = info.start;
+        for (hole_start, hole_end) in &info.holes {
+            entries.push((start, *hole_start));
+            start = *hole_end;
+        }
+        entries.push((start, iseq.current()));
+        entries
+            .into_iter()
+            .map(|(start, end)| {
+                ExceptionEntry::new_rescue(ty.clone(), start, end, ISeqPos::from(0), info.sp)
+            })
+            .collect()
     }
 
-    fn push_ex_rescue(&mut self, body_start: ISeqPos, body_end: ISeqPos, dest: ISeqPos) {
-        self.context_mut()
-            .exception_table
-            .push(ExceptionEntry::new_rescue(body_start, body_end, dest));
+    fn push_ex_rescue(&mut self, entries: Vec<ExceptionEntry>, dest: ISeqPos) {
+        for mut entry in entries {
+            entry.dest = dest;
+            self.context_mut().exception_table.push(entry);
+        }
+    }
+
+    /// Execute all ensure clauses between here and begin clause of `depth`,
+    /// and do `exit`, which must leave them.
+    fn gen_leave_begin(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        depth: usize,
+        exit: impl FnOnce(&mut Self, &mut ISeq),
+    ) -> Result<(), RubyError> {
+        let mut left = vec![];
+        while depth < self.context().begin_stack.len() {
+            let info = self.context_mut().begin_stack.pop().unwrap();
+            let start = iseq.current();
+            if let Some(ensure) = info.ensure.clone() {
+                let loops = self.loop_stack.split_off(info.loop_depth);
+                self.gen(globals, iseq, ensure, false)?;
+                self.loop_stack.extend(loops);
+            }
+            left.push((info, start));
+        }
+        exit(self, iseq);
+        let end = iseq.current();
+        for (mut info, start) in left.into_iter().rev() {
+            info.holes.push((start, end));
+            self.context_mut().begin_stack.push(info);
+        }
+        Ok(())
+    }
+
+    /// Generate a jump for `break` or `next` in loops.
+    fn gen_escape_loop(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        kind: EscapeKind,
+    ) -> Result<(), RubyError> {
+        let depth = self.loop_stack.last().unwrap().begin_depth;
+        let mut src = ISeqPos::from(0);
+        self.gen_leave_begin(globals, iseq, depth, |_, iseq| src = iseq.gen_jmp())?;
+        let x = self.loop_stack.last_mut().unwrap();
+        x.escape.push(EscapeInfo::new(src, kind));
+        Ok(())
     }
 
     fn push_ex_continue(&mut self, body_start: ISeqPos, body_end: ISeqPos, dest: ISeqPos) {
@@ -216,6 +294,12 @@ impl Codegen {
         self.gen(globals, &mut iseq, node, use_value)?;
         let context = self.context_stack.pop().unwrap();
 
+        // Register internal variables.
+        let mut lvar_collector = lvar_collector;
+        context.lvar_info.iter().for_each(|id| {
+            lvar_collector.insert(*id);
+        });
+
         let iseq_sourcemap = context.iseq_sourcemap;
         let exception_table = context.exception_table;
         iseq.gen_return();
@@ -1006,7 +1090,8 @@ impl Codegen {
                 body,
                 cond_op,
             } => {
-                self.loop_stack.push(LoopInfo::new_loop());
+                let begin_depth = self.context().begin_stack.len();
+                self.loop_stack.push(LoopInfo::new_loop(begin_depth));
 
                 let loop_start = iseq.current();
                 let src = if cond_op {
@@ -1043,17 +1128,25 @@ impl Codegen {
                 else_,
                 ensure,
             } => {
-                let mut ensure_dest = vec![];
-                let body_start = iseq.current();
-                self.push_jump_dest(ensure.is_some());
-                self.gen(globals, iseq, *body, use_value)?;
-                let jump_dest = self.pop_jump_dest();
-                let body_end = iseq.current();
-                let mut dest = None;
-                let mut prev = None;
-
-                if !rescue.is_empty() {
+                let has_ensure = ensure.is_some();
+                if let Some(box ensure) = &ensure {
+                    self.push_begin(iseq, Some(ensure.clone()));
+                }
+                if rescue.is_empty() {
+                    self.gen(globals, iseq, *body, use_value)?;
+                    if let Some(else_) = else_ {
+                        if use_value {
+                            iseq.gen_pop()
+                        };
+                        self.gen(globals, iseq, *else_, use_value)?
+                    };
+                } else {
+                    self.push_begin(iseq, None);
+                    self.gen(globals, iseq, *body, use_value)?;
+                    let entries = self.pop_begin(iseq, ExceptionType::Rescue);
+                    let mut rescue_end = vec![];
                     let else_dest = iseq.gen_jmp();
+                    let dest = iseq.current();
                     // Rescue clauses.
                     for RescueEntry {
                         exception_list,
@@ -1061,12 +1154,6 @@ impl Codegen {
                         body,
                     } in rescue
                     {
-                        if dest.is_none() {
-                            dest = Some(iseq.current())
-                        };
-                        if let Some(prev) = prev {
-                            iseq.write_disp_from_cur(prev);
-                        }
                         iseq.gen_dup(1);
                         if !exception_list.is_empty() {
                             let len = exception_list.len();
@@ -1081,73 +1168,46 @@ impl Codegen {
                             iseq.push(Inst::RESCUE);
                             iseq.push32(1);
                         }
-                        prev = Some(iseq.gen_jmp_if_f());
+                        let next_clause = iseq.gen_jmp_if_f();
                         // assign the error value.
                         match assign {
                             Some(assign) => self.gen_assign(globals, iseq, *assign)?,
                             None => iseq.gen_pop(),
                         }
                         self.gen(globals, iseq, *body, use_value)?;
-                        ensure_dest.push(iseq.gen_jmp());
+                        rescue_end.push(iseq.gen_jmp());
+                        iseq.write_disp_from_cur(next_clause);
                     }
                     // When no rescue clause were matched
-                    if let Some(prev) = prev {
-                        iseq.write_disp_from_cur(prev);
-                    }
-                    if let Some(box ensure) = ensure.clone() {
-                        self.gen(globals, iseq, ensure, false)?;
-                    }
                     self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
-                    //iseq.gen_pop();
-                    //if use_value {
-                    //    iseq.gen_push_nil()
-                    //};
-                    //ensure_dest.push(iseq.gen_jmp());
                     iseq.write_disp_from_cur(else_dest);
-                }
-                // If no exception occured, execute else clause.
-                if let Some(else_) = else_ {
-                    if use_value {
-                        iseq.gen_pop()
+                    // If no exception occured, execute else clause.
+                    if let Some(else_) = else_ {
+                        if use_value {
+                            iseq.gen_pop()
+                        };
+                        self.gen(globals, iseq, *else_, use_value)?
                     };
-                    self.gen(globals, iseq, *else_, use_value)?
-                };
-                if !jump_dest.is_empty() {
-                    // Ensure clause for exception return path.
-                    let ensure_label = iseq.gen_jmp();
-                    for dest in &jump_dest.return_entries {
-                        iseq.write_disp_from_cur(*dest);
-                    }
-                    if !jump_dest.return_entries.is_empty() {
-                        if let Some(box ensure) = ensure.clone() {
-                            self.gen(globals, iseq, ensure, false)?;
-                        }
-                        self.save_loc(iseq, node.loc);
-                        iseq.gen_return();
-                    }
-                    for dest in &jump_dest.mreturn_entries {
-                        iseq.write_disp_from_cur(*dest);
-                    }
-                    if !jump_dest.mreturn_entries.is_empty() {
-                        if let Some(box ensure) = ensure.clone() {
-                            self.gen(globals, iseq, ensure, false)?;
-                        }
-                        self.save_loc(iseq, node.loc);
-                        iseq.gen_method_return();
+                    for src in rescue_end {
+                        iseq.write_disp_from_cur(src);
                     }
-                    iseq.write_disp_from_cur(ensure_label);
-                }
-                // Ensure clause for noraml return path.
-                for src in ensure_dest {
-                    iseq.write_disp_from_cur(src);
-                }
-                if let Some(dest) = dest {
-                    self.push_ex_rescue(body_start, body_end, dest);
+                    self.push_ex_rescue(entries, dest);
                 }
-                // Ensure clause does not return value.
-                if let Some(ensure) = ensure {
-                    self.gen(globals, iseq, *ensure, false)?;
+                if has_ensure {
+                    let ensure = *ensure.unwrap();
+                    let entries = self.pop_begin(iseq, ExceptionType::Ensure);
+                    // Ensure clause for normal path.
+                    // Ensure clause does not return value.
+                    self.gen(globals, iseq, ensure.clone(), false)?;
+                    let end = iseq.gen_jmp();
+                    // Ensure clause for exceptions and non-local exits.
+                    let dest = iseq.current();
+                    self.gen(globals, iseq, ensure, false)?;
+                    self.save_loc(iseq, node.loc);
+                    iseq.push(Inst::THROW);
+                    iseq.write_disp_from_cur(end);
+                    self.push_ex_rescue(entries, dest);
                 }
             }
             NodeKind::Case { cond, when_, else_ } => {
@@ -1497,23 +1557,15 @@ impl Codegen {
                 // Call ensure clauses.
                 // Note ensure clause does not return any value.
                 let is_block = self.context().kind == ContextKind::Block;
-                if let Some(ex) = self.context_mut().jump_dest.last_mut() {
-                    if ex.has_ensure {
-                        let dest = iseq.gen_jmp();
-                        if is_block {
-                            ex.mreturn_entries.push(dest)
-                        } else {
-                            ex.return_entries.push(dest)
-                        };
-                        return Ok(());
+                let loc = node.loc;
+                self.gen_leave_begin(globals, iseq, 0, |gen, iseq| {
+                    if is_block {
+                        iseq.gen_method_return();
+                    } else {
+                        iseq.gen_return();
                     }
-                }
-                self.save_loc(iseq, node.loc);
-                if is_block {
-                    iseq.gen_method_return();
-                } else {
-                    iseq.gen_return();
-                }
+                    gen.save_loc(iseq, loc);
+                })?;
             }
             NodeKind::Break(val) => {
                 if self.loop_stack.last().unwrap().state == LoopState::Top {
@@ -1521,8 +1573,10 @@ impl Codegen {
                     match self.context().kind {
                         ContextKind::Block => {
                             self.gen(globals, iseq, *val, true)?;
-                            self.save_loc(iseq, node_loc);
-                            iseq.gen_break();
+                            self.gen_leave_begin(globals, iseq, 0, |gen, iseq| {
+                                iseq.gen_break();
+                                gen.save_loc(iseq, node_loc);
+                            })?;
                         }
                         ContextKind::Method(_) | ContextKind::Class(_) => {
                             return Err(
@@ -1539,9 +1593,7 @@ impl Codegen {
                 } else {
                     //In the case of inner of loops
                     self.gen(globals, iseq, *val, true)?;
-                    let src = iseq.gen_jmp();
-                    let x = self.loop_stack.last_mut().unwrap();
-                    x.escape.push(EscapeInfo::new(src, EscapeKind::Break));
+                    self.gen_escape_loop(globals, iseq, EscapeKind::Break)?;
                 }
             }
             NodeKind::Next(val) => {
@@ -1550,7 +1602,7 @@ impl Codegen {
                     match self.context_stack.last().unwrap().kind {
                         ContextKind::Block => {
                             self.gen(globals, iseq, *val, true)?;
-                            iseq.gen_return();
+                            self.gen_leave_begin(globals, iseq, 0, |_, iseq| iseq.gen_return())?;
                         }
                         ContextKind::Method(_) | ContextKind::Class(_) => {
                             return Err(
@@ -1566,10 +1618,8 @@ impl Codegen {
                     }
                 } else {
                     //In the case of inner of loops
-                    self.gen(globals, iseq, *val, use_value)?;
-                    let src = iseq.gen_jmp();
-                    let x = self.loop_stack.last_mut().unwrap();
-                    x.escape.push(EscapeInfo::new(src, EscapeKind::Next));
+                    self.gen(globals, iseq, *val, false)?;
+                    self.gen_escape_loop(globals, iseq, EscapeKind::Next)?;
                 }
             }
             NodeKind::Lambda(BlockInfo { params, body, lvar }) => {
@@ -1846,6 +1896,8 @@ impl Codegen {
 #[derive(Debug, Clone, PartialEq)]
 struct LoopInfo {
     state: LoopState,
+    /// The number of begin clauses which enclose the loop.
+    begin_depth: usize,
     escape: Vec<EscapeInfo>,
 }
 
@@ -1853,13 +1905,15 @@ impl LoopInfo {
     fn new_top() -> Self {
         LoopInfo {
             state: LoopState::Top,
+            begin_depth: 0,
             escape: vec![],
         }
     }
 
-    fn new_loop() -> Self {
+    fn new_loop(begin_depth: usize) -> Self {
         LoopInfo {
             state: LoopState::Loop,
+            begin_depth,
             escape: vec![],
         }
     }
@@ -1895,8 +1949,8 @@ enum EscapeKind {
 pub struct Context {
     lvar_info: LvarTable,
     pub iseq_sourcemap: Vec<(ISeqPos, Loc)>,
-    /// Unsolved destinations of local jumps.
-    jump_dest: Vec<LocalJumpDest>,
+    /// begin clauses which enclose the current position.
+    begin_stack: Vec<BeginInfo>,
     exception_table: Vec<ExceptionEntry>,
     kind: ContextKind,
 }
@@ -1906,7 +1960,7 @@ impl Context {
         Context {
             lvar_info: LvarTable::new(),
             iseq_sourcemap: vec![],
-            jump_dest: vec![],
+            begin_stack: vec![],
             exception_table: vec![],
             kind: ContextKind::Eval,
         }
@@ -1916,34 +1970,24 @@ impl Context {
         Context {
             lvar_info,
             iseq_sourcemap: vec![],
-            jump_dest: vec![],
+            begin_stack: vec![],
             exception_table: vec![],
             kind,
         }
     }
 }
 
-/// Local jump destination entry.
-/// i.e. return and method_return
+/// Infomation for begin-(rescue)-ensure clauses being compiled.
 #[derive(Debug, Clone, PartialEq)]
-struct LocalJumpDest {
-    has_ensure: bool,
-    return_entries: Vec<ISeqPos>,
-    mreturn_entries: Vec<ISeqPos>,
-}
-
-impl LocalJumpDest {
-    fn new(has_ensure: bool) -> Self {
-        LocalJumpDest {
-            has_ensure,
-            return_entries: vec![],
-            mreturn_entries: vec![],
-        }
-    }
-
-    fn is_empty(&self) -> bool {
-        self.return_entries.is_empty() && self.mreturn_entries.is_empty()
-    }
+struct BeginInfo {
+    /// local variable which holds the stack height at the beginning of the clause.
+    sp: LvarId,
+    start: ISeqPos,
+    ensure: Option<Node>,
+    /// Depth of `loop_stack` at the beginning of the clause.
+    loop_depth: usize,
+    /// Ranges in the body where the clause was already left.
+    holes: Vec<(ISeqPos, ISeqPos)>,
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 27e13a7..c7f2814 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -370,7 +370,7 @@ impl Globals {
                 "OPT_CASE {:>05}",
                 (pc + 13 + iseq.read_disp(pc + 9)).into_usize(),
             ),
-            Inst::SET_LOCAL | Inst::GET_LOCAL => {
+            Inst::SET_LOCAL | Inst::GET_LOCAL | Inst::SAVE_SP => {
                 let id = iseq.read32(pc + 1);
                 let ident_name = iseq_ref.lvar.get_name(id.into());
                 format!("{} '{}'", Inst::inst_name(iseq[pc]), ident_name,)
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index e011111..a5088e6 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -36,6 +36,8 @@ pub struct VM {
     /// current iseq
     pub iseq: ISeqRef,
     pub handle: Option<FiberHandle>,
+    /// The frame which a non-local exit (break, return) in progress goes to.
+    jump_target: ControlFrame,
     sp_last_match: Option<String>,   // $&        : Regexp.last_match(0)
     sp_post_match: Option<String>,   // $'        : Regexp.post_match
     sp_matches: Vec<Option<String>>, // $1 ... $n : Regexp.last_match(n)
@@ -102,6 +104,7 @@ impl VM {
             cfp: ControlFrame::default(),
             iseq: ISeqRef::default(),
             handle: None,
+            jump_target: ControlFrame::default(),
             sp_last_match: None,
             sp_post_match: None,
             sp_matches: vec![],
@@ -159,6 +162,7 @@ impl VM {
             cfp: ControlFrame::default(),
             iseq: ISeqRef::default(),
             handle: None,
+            jump_target: ControlFrame::default(),
             sp_last_match: None,
             sp_post_match: None,
             sp_matches: vec![],
@@ -399,34 +403,11 @@ impl VM {
                     return Ok(val);
                 }
                 Err(mut err) => {
-                    match err.kind {
-                        RubyErrorKind::BlockReturn => {
-                            #[cfg(feature = "trace")]
-                            eprintln!("<+++ BlockReturn({:?})", self.globals.val);
-                            return Err(err);
-                        }
-                        RubyErrorKind::MethodReturn => {
-                            // In the case of MethodReturn, returned value is to be saved in vm.globals.val.
-                            loop {
-                                if invoke_count == 0 {
-                                    #[cfg(feature = "trace")]
-                                    eprintln!("<+++ MethodReturn({:?})", self.globals.val);
-                                    self.unwind_frame();
-                                    return Err(err);
-                                };
-                                self.unwind_frame();
-                                #[cfg(feature = "trace")]
-                                eprintln!("<--- MethodReturn({:?})", self.globals.val);
-                                invoke_count -= 1;
-                                if self.iseq.is_method() {
-                                    break;
-                                }
-                            }
-                            let val = self.globals.val;
-                            self.stack_push(val);
-                            continue;
+                    if err.is_block_return() || err.is_method_return() {
+                        match self.handle_jump(err, &mut invoke_count)? {
+                            Some(val) => return Ok(val),
+                            None => continue,
                         }
-                        _ => {}
                     }
                     // Handle Exception.
                     loop {
@@ -445,9 +426,9 @@ impl VM {
                         if let Some(entry) = catch {
                             // Exception raised inside of begin-end with rescue clauses.
                             self.set_pc(entry.dest);
-                            match entry.ty {
-                                ExceptionType::Rescue => self.clear_stack(),
-                                _ => {}
+                            if let Some(id) = entry.sp {
+                                let height = self.lfp[id].as_fnum() as usize;
+                                self.restore_stack(height);
                             };
                             let val = self
                                 .globals
@@ -477,6 +458,134 @@ impl VM {
     }
 }
 
+// Non-local exits. (break and return in blocks)
+impl VM {
+    /// Find a frame of `ep` on the stack.
+    fn find_frame(&self, ep: EnvFrame) -> Option<ControlFrame> {
+        let ep = ep.ep();
+        let mut cfp = Some(self.cfp);
+        while let Some(f) = cfp {
+            if f.is_ruby_func() && f.ep() == ep {
+                return Some(f);
+            }
+            cfp = f.prev();
+        }
+        None
+    }
+
+    /// `break` in block goes to the frame where the block was described.
+    pub(super) fn start_break(&mut self, val: Value) -> RubyError {
+        let ep = self.cfp.ep();
+        match ep.outer() {
+            Some(outer) if !ep.iseq().is_method() => match self.find_frame(outer) {
+                Some(target) => {
+                    self.jump_target = target;
+                    self.globals.val = val;
+                    RubyError::block_return()
+                }
+                None => RubyError::local_jump("break from proc-closure."),
+            },
+            _ => self.start_method_return(val),
+        }
+    }
+
+    /// `return` in block goes to the frame of the method (or lambda) where the block was described.
+    pub(super) fn start_method_return(&mut self, val: Value) -> RubyError {
+        let mut ep = self.cfp.ep();
+        while !ep.iseq().is_method() {
+            match ep.outer() {
+                Some(outer) => ep = outer,
+                None => break,
+            }
+        }
+        match self.find_frame(ep) {
+            Some(target) => {
+                self.jump_target = target;
+                self.globals.val = val;
+                RubyError::method_return()
+            }
+            None => RubyError::local_jump("Unexpected return."),
+        }
+    }
+
+    /// Pack a non-local exit in progress into Value while an ensure clause is executed.
+    fn suspend_jump(&self, err: &RubyError) -> Value {
+        Value::array_from(vec![
+            Value::uninitialized(),
+            Value::bool(err.is_block_return()),
+            Value::fixnum(self.cfp_index(self.jump_target) as i64),
+            self.globals.val,
+        ])
+    }
+
+    /// Throw the exception, or resume the non-local exit after the ensure clause.
+    pub(super) fn resume_throw(&mut self, val: Value) -> RubyError {
+        if let Some(ary) = val.as_array() {
+            if ary.len() == 4 && ary[0].is_uninitialized() {
+                self.jump_target = self.cfp_from_frame(Frame(ary[2].as_fnum() as u32));
+                self.globals.val = ary[3];
+                return if ary[1].to_bool() {
+                    RubyError::block_return()
+                } else {
+                    RubyError::method_return()
+                };
+            }
+        }
+        self.globals.val = val;
+        RubyError::value()
+    }
+
+    /// Unwind frames until the target of the non-local exit.
+    ///
+    /// Returns Some(val) if the frame which was invoked first in the current run_loop() returned val.
+    fn handle_jump(
+        &mut self,
+        err: RubyError,
+        invoke_count: &mut usize,
+    ) -> Result<Option<Value>, RubyError> {
+        let mut use_value = true;
+        loop {
+            let is_target = self.cfp == self.jump_target;
+            if is_target && err.is_block_return() {
+                // The method call with the block was finished.
+                if use_value {
+                    let val = self.globals.val;
+                    self.stack_push(val);
+                }
+                return Ok(None);
+            }
+            let cur_pc = self.pc_offset();
+            let ensure = self
+                .iseq
+                .exception_table
+                .iter()
+                .find(|x| x.ty == ExceptionType::Ensure && x.include(cur_pc))
+                .cloned();
+            if let Some(entry) = ensure {
+                let val = self.suspend_jump(&err);
+                self.set_pc(entry.dest);
+                let height = self.lfp[entry.sp.unwrap()].as_fnum() as usize;
+                self.restore_stack(height);
+                self.stack_push(val);
+                return Ok(None);
+            }
+            use_value = !self.discard_val();
+            self.unwind_frame();
+            let val = self.globals.val;
+            if *invoke_count == 0 {
+                return if is_target { Ok(Some(val)) } else { Err(err) };
+            }
+            *invoke_count -= 1;
+            if is_target {
+                if use_value {
+                    self.stack_push(val);
+                }
+                return Ok(None);
+            }
+        }
+    }
+}
+
 impl VM {
     pub fn show_err(&self, err: &RubyError) {
         if err.is_exception() {
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 0fa344d..6096172 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -320,7 +320,10 @@ impl EnvFrame {
         while let Some(e) = ep {
             let iseq = e.iseq();
             for v in iseq.lvar.table() {
-                vec.insert(*v);
+                // Names of internal variables start with '%'.
+                if !v.get_name().starts_with('%') {
+                    vec.insert(*v);
+                }
             }
             ep = e.outer();
         }
@@ -393,7 +396,7 @@ impl Index<std::ops::Range<usize>> for LocalFrame {
 
 impl VM {
     /// Get the index of `cfp`.
-    fn cfp_index(&self, cfp: ControlFrame) -> u32 {
+    pub(super) fn cfp_index(&self, cfp: ControlFrame) -> u32 {
         unsafe {
             let ptr = self.stack.as_mut_ptr();
             let offset = cfp.0.offset_from(ptr);
@@ -666,14 +669,25 @@ impl VM {
         }
     }
 
-    pub(super) fn clear_stack(&mut self) {
-        self.stack.sp = self.cfp.as_sp()
+    fn stack_bottom(&self) -> StackPtr {
+        self.cfp.as_sp()
             + CONT_FRAME_LEN
             + if self.is_ruby_func() {
                 RUBY_FRAME_LEN
             } else {
                 0
-            };
+            }
+    }
+
+    /// The number of values on the stack of the current frame.
+    pub(super) fn stack_height(&self) -> usize {
+        let bottom = self.stack_bottom();
+        unsafe { self.sp().as_ptr().offset_from(bottom.as_ptr()) as usize }
+    }
+
+    /// Drop values on the stack of the current frame until `height` values are left.
+    pub(super) fn restore_stack(&mut self, height: usize) {
+        self.stack.sp = self.stack_bottom() + height;
     }
 
     fn push_control_frame(&mut self, prev_cfp: ControlFrame, ep: EnvFrame, flag: u64) {
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 3cb765a..c34bc03 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -561,7 +561,7 @@ impl VM {
         match res {
             Ok(val) => Ok(val),
             Err(err) => {
-                if err.is_block_return() {
+                if err.is_block_return() && self.jump_target == cfp {
                     let val = self.globals.val;
                     Ok(val)
                 } else {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index cad91fd..0ee5422 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -33,26 +33,7 @@ impl VM {
                                 self.stack_push(v);
                             }
                         }
-                        Err(err) => match err.kind {
-                            RubyErrorKind::BlockReturn => {}
-                            RubyErrorKind::MethodReturn if self.iseq.is_method() => {
-                                let val = self.globals.val;
-                                if *invoke_count == 0 {
-                                    return Ok(val);
-                                } else {
-                                    self.unwind_frame();
-                                    *invoke_count -= 1;
-                                    #[cfg(feature = "trace")]
-                                    eprintln!("<--- Ok({:?})", self.globals.val);
-                                    self.stack_push(val);
-                                    break;
-                                }
-                            }
-                            RubyErrorKind::MethodReturn => {
-                                return Err(err);
-                            }
-                            _ => return Err(err),
-                        },
+                        Err(err) => return Err(err),
                     }
                 };
             }
@@ -134,33 +115,20 @@ impl VM {
                     }
                     Inst::BREAK => {
                         // - `break`  in block or eval AND outer of loops.
-                        debug_assert!(
-                            self.kind() == ISeqKind::Block || self.kind() == ISeqKind::Other
-                        );
-                        self.globals.val = self.stack_pop();
-                        self.unwind_frame();
-                        if *invoke_count == 0 {
-                            let err = RubyError::block_return();
-                            return Err(err);
-                        } else {
-                            *invoke_count -= 1;
-                            #[cfg(feature = "trace")]
-                            eprintln!("<--- BlockReturn({:?})", self.globals.val);
-                            break;
-                        }
+                        // - `break`  in lambda AND outer of loops. (same as `return`)
+                        let val = self.stack_pop();
+                        return Err(self.start_break(val));
                     }
                     Inst::MRETURN => {
                         // - `return` in block
-                        debug_assert!(self.kind() == ISeqKind::Block);
-                        self.globals.val = self.stack_pop();
-                        let err = RubyError::method_return();
-                        return Err(err);
+                        let val = self.stack_pop();
+                        return Err(self.start_method_return(val));
                     }
                     Inst::THROW => {
                         // - raise error
-                        self.globals.val = self.stack_pop();
+                        let val = self.stack_pop();
                         self.pc -= 1;
-                        return Err(RubyError::value());
+                        return Err(self.resume_throw(val));
                     }
                     Inst::PUSH_NIL => self.stack_push(Value::nil()),
                     Inst::PUSH_SELF => self.stack_push(self_val),
@@ -242,6 +210,11 @@ impl VM {
                         let val = self.lfp[id];
                         self.stack_push(val);
                     }
+                    Inst::SAVE_SP => {
+                        let id = self.pc.read_lvar_id();
+                        let height = self.stack_height();
+                        self.lfp[id] = Value::fixnum(height as i64);
+                    }
                     Inst::SET_DYNLOCAL => {
                         let id = self.pc.read_lvar_id();
                         let outer = self.pc.read32();
-- 
2.43.0


From a5d87b5bd133252c99f279d8b6679bac000ca16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 13/57] fix: StopIteration is not an IndexError

---
 ruruby/src/builtin/exception.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/builtin/exception.rs b/ruruby/src/builtin/exception.rs
index c2eef0b..dc21862 100644
--- a/ruruby/src/builtin/exception.rs
+++ b/ruruby/src/builtin/exception.rs
@@ -26,8 +26,10 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let err = Module::class_under(standard_error);
     globals.set_toplevel_constant("ArgumentError", err);
 
-    let err = Module::class_under(standard_error);
-    globals.set_toplevel_constant("IndexError", err);
+    let index_error = Module::class_under(standard_error);
+    globals.set_toplevel_constant("IndexError", index_error);
+    let err = Module::class_under(index_error);
+    globals.set_toplevel_constant("StopIteration", err);
 
     let err = Module::class_under(standard_error);
     globals.set_toplevel_constant("RegexpError", err);
@@ -46,9 +48,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let err = Module::class_under(standard_error);
     globals.set_toplevel_constant("ZeroDivisionError", err);
 
-    let err = Module::class_under(standard_error);
-    globals.set_toplevel_constant("StopIteration", err);
-
     let err = Module::class_under(standard_error);
     globals.set_toplevel_constant("LocalJumpError", err);
 
-- 
2.43.0


From eadfe8cbbd13b4fbce0985d0527847d7c90ddd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 14/57] fix: begin ... end while tests the condition before the
 first iteration

---
 ruruby-parse/src/node.rs                | 10 +++++++++-
 ruruby-parse/src/parser/expression.rs   |  7 +++++--
 ruruby-parse/src/parser/flow_control.rs |  2 +-
 ruruby/src/codegen.rs                   | 11 +++++++++++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/ruruby-parse/src/node.rs b/ruruby-parse/src/node.rs
index 81fa241..4dce9d5 100644
--- a/ruruby-parse/src/node.rs
+++ b/ruruby-parse/src/node.rs
@@ -64,6 +64,7 @@ pub enum NodeKind {
         cond: Box<Node>,
         body: Box<Node>,
         cond_op: bool, // true: While, false: Until
+        do_while: bool, // true: the condition is tested after the body
     },
     Case {
         cond: Option<Box<Node>>,
@@ -633,13 +634,20 @@ impl Node {
         )
     }
 
-    pub(crate) fn new_while(cond: Node, body: Node, cond_op: bool, loc: Loc) -> Self {
+    pub(crate) fn new_while(
+        cond: Node,
+        body: Node,
+        cond_op: bool,
+        do_while: bool,
+        loc: Loc,
+    ) -> Self {
         let loc = loc.merge(body.loc());
         Node::new(
             NodeKind::While {
                 cond: Box::new(cond),
                 body: Box::new(body),
                 cond_op,
+                do_while,
             },
             loc,
         )
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 59695f5..02c18e4 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -46,6 +46,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         // | * LHS [no term] = (UNPARENTHESIZED-METHOD-CALL | ARG)
         // | MLHS [no term] = MRHS
         let mut node = self.parse_expr()?;
+        // begin ... end while EXPR
+        let mut do_while = matches!(node.kind, NodeKind::Begin { .. });
         loop {
             if self.consume_reserved_no_skip_line_term(Reserved::If)? {
                 // STMT : STMT if EXPR
@@ -62,13 +64,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let loc = self.prev_loc();
                 let cond = self.parse_expr()?;
                 let loc = loc.merge(self.prev_loc());
-                node = Node::new_while(cond, node, true, loc);
+                node = Node::new_while(cond, node, true, do_while, loc);
             } else if self.consume_reserved_no_skip_line_term(Reserved::Until)? {
                 // STMT : STMT until EXPR
                 let loc = self.prev_loc();
                 let cond = self.parse_expr()?;
                 let loc = loc.merge(self.prev_loc());
-                node = Node::new_while(cond, node, false, loc);
+                node = Node::new_while(cond, node, false, do_while, loc);
             } else if self.consume_reserved_no_skip_line_term(Reserved::Rescue)? {
                 // STMT : STMT rescue EXPR
                 let rescue = self.parse_expr()?;
@@ -76,6 +78,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             } else {
                 break;
             }
+            do_while = false;
         }
         // STMT : EXPR
         Ok(node)
diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index 78a2d92..4a1bc6a 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -60,7 +60,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let body = self.parse_comp_stmt()?;
         self.expect_reserved(Reserved::End)?;
         let loc = loc.merge(self.prev_loc());
-        Ok(Node::new_while(cond, body, is_while, loc))
+        Ok(Node::new_while(cond, body, is_while, false, loc))
     }
 
     pub(super) fn parse_for(&mut self) -> Result<Node, ParseErr> {
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 491b24f..afdb605 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1089,10 +1089,18 @@ impl Codegen {
                 cond,
                 body,
                 cond_op,
+                do_while,
             } => {
                 let begin_depth = self.context().begin_stack.len();
                 self.loop_stack.push(LoopInfo::new_loop(begin_depth));
 
+                let body_start = if do_while {
+                    // The first iteration does not test the condition.
+                    let src = iseq.gen_jmp();
+                    Some(src)
+                } else {
+                    None
+                };
                 let loop_start = iseq.current();
                 let src = if cond_op {
                     self.gen_jmp_if_false(globals, iseq, *cond)?
@@ -1100,6 +1108,9 @@ impl Codegen {
                     self.gen(globals, iseq, *cond, true)?;
                     iseq.gen_jmp_if_t()
                 };
+                if let Some(src) = body_start {
+                    iseq.write_disp_from_cur(src);
+                }
                 self.gen(globals, iseq, *body, false)?;
                 iseq.gen_jmp_back(loop_start);
                 iseq.write_disp_from_cur(src);
-- 
2.43.0


From 1182d0677d916e6a3a7e5dcd73ed67f48f73da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 15/57] fix: break and next leave operands of the loop on the
 stack

---
 ruruby-common/src/vm_inst.rs       |  3 ++
 ruruby/src/codegen.rs              | 51 +++++++++++++++++++++++-------
 ruruby/src/globals.rs              |  2 +-
 ruruby/src/vm/executor/opt_core.rs |  7 ++++
 4 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 66cebcc..a19f51a 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -56,6 +56,7 @@ impl Inst {
     pub const SINKN: u8 = 86;
     pub const TOPN: u8 = 87;
     pub const SAVE_SP: u8 = 88;
+    pub const RESTORE_SP: u8 = 89;
 
     pub const DEF_CLASS: u8 = 90;
     pub const DEF_SCLASS: u8 = 91;
@@ -178,6 +179,7 @@ impl Inst {
 
             Inst::SET_LOCAL => "SET_LOCAL",
             Inst::SAVE_SP => "SAVE_SP",
+            Inst::RESTORE_SP => "RESTORE_SP",
             Inst::GET_LOCAL => "GET_LOCAL",
             Inst::SET_DYNLOCAL => "SET_DYNLOCAL",
             Inst::GET_DYNLOCAL => "GET_DYNLOCAL",
@@ -291,6 +293,7 @@ impl Inst {
             Inst::SET_LOCAL           // LvarId: u32
             | Inst::GET_LOCAL           // LVarId: u32
             | Inst::SAVE_SP             // LVarId: u32
+            | Inst::RESTORE_SP          // LVarId: u32
             | Inst::SET_CONST           // IdentId: u32
             | Inst::CHECK_CONST         // IdentId: u32
             | Inst::CHECK_SCOPE         // IdentId: u32
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index afdb605..d574915 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -117,20 +117,28 @@ impl Codegen {
         self.context_stack.last_mut().unwrap()
     }
 
-    /// Enter begin clause which has rescue clauses or an ensure clause.
-    fn push_begin(&mut self, iseq: &mut ISeq, ensure: Option<Node>) {
-        let loop_depth = self.loop_stack.len();
-        let context = self.context_mut();
-        let id = IdentId::get_id_from_string(format!("%sp{}", context.begin_stack.len()));
-        let sp = match context.lvar_info.get_lvarid(id) {
+    /// Save the current stack height to the hidden local variable `name`.
+    fn gen_save_sp(&mut self, iseq: &mut ISeq, name: String) -> LvarId {
+        let id = IdentId::get_id_from_string(name);
+        let lvar_info = &mut self.context_mut().lvar_info;
+        let sp = match lvar_info.get_lvarid(id) {
             Some(sp) => sp,
             None => {
-                context.lvar_info.push(id);
-                context.lvar_info.get_lvarid(id).unwrap()
+                lvar_info.push(id);
+                lvar_info.get_lvarid(id).unwrap()
             }
         };
         iseq.push(Inst::SAVE_SP);
         iseq.push32(sp.as_u32());
+        sp
+    }
+
+    /// Enter begin clause which has rescue clauses or an ensure clause.
+    fn push_begin(&mut self, iseq: &mut ISeq, ensure: Option<Node>) {
+        let loop_depth = self.loop_stack.len();
+        let context = self.context();
+        let name = format!("%sp{}", context.begin_stack.len());
+        let sp = self.gen_save_sp(iseq, name);
         let start = iseq.current();
         self.context_mut().begin_stack.push(BeginInfo {
             sp,
@@ -203,9 +211,23 @@ impl Codegen {
         iseq: &mut ISeq,
         kind: EscapeKind,
     ) -> Result<(), RubyError> {
-        let depth = self.loop_stack.last().unwrap().begin_depth;
+        let (depth, sp) = {
+            let info = self.loop_stack.last().unwrap();
+            (info.begin_depth, info.sp.unwrap())
+        };
         let mut src = ISeqPos::from(0);
-        self.gen_leave_begin(globals, iseq, depth, |_, iseq| src = iseq.gen_jmp())?;
+        self.gen_leave_begin(globals, iseq, depth, |_, iseq| {
+            // Drop operands which were pushed in the loop.
+            if kind == EscapeKind::Next {
+                iseq.gen_push_nil();
+            }
+            iseq.push(Inst::RESTORE_SP);
+            iseq.push32(sp.as_u32());
+            if kind == EscapeKind::Next {
+                iseq.gen_pop();
+            }
+            src = iseq.gen_jmp()
+        })?;
         let x = self.loop_stack.last_mut().unwrap();
         x.escape.push(EscapeInfo::new(src, kind));
         Ok(())
@@ -1092,7 +1114,8 @@ impl Codegen {
                 do_while,
             } => {
                 let begin_depth = self.context().begin_stack.len();
-                self.loop_stack.push(LoopInfo::new_loop(begin_depth));
+                let sp = self.gen_save_sp(iseq, format!("%lp{}", self.loop_stack.len()));
+                self.loop_stack.push(LoopInfo::new_loop(begin_depth, sp));
 
                 let body_start = if do_while {
                     // The first iteration does not test the condition.
@@ -1909,6 +1932,8 @@ struct LoopInfo {
     state: LoopState,
     /// The number of begin clauses which enclose the loop.
     begin_depth: usize,
+    /// local variable which holds the stack height at the beginning of the loop.
+    sp: Option<LvarId>,
     escape: Vec<EscapeInfo>,
 }
 
@@ -1917,14 +1942,16 @@ impl LoopInfo {
         LoopInfo {
             state: LoopState::Top,
             begin_depth: 0,
+            sp: None,
             escape: vec![],
         }
     }
 
-    fn new_loop(begin_depth: usize) -> Self {
+    fn new_loop(begin_depth: usize, sp: LvarId) -> Self {
         LoopInfo {
             state: LoopState::Loop,
             begin_depth,
+            sp: Some(sp),
             escape: vec![],
         }
     }
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index c7f2814..6c9ffe2 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -370,7 +370,7 @@ impl Globals {
                 "OPT_CASE {:>05}",
                 (pc + 13 + iseq.read_disp(pc + 9)).into_usize(),
             ),
-            Inst::SET_LOCAL | Inst::GET_LOCAL | Inst::SAVE_SP => {
+            Inst::SET_LOCAL | Inst::GET_LOCAL | Inst::SAVE_SP | Inst::RESTORE_SP => {
                 let id = iseq.read32(pc + 1);
                 let ident_name = iseq_ref.lvar.get_name(id.into());
                 format!("{} '{}'", Inst::inst_name(iseq[pc]), ident_name,)
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 0ee5422..3c88a1f 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -215,6 +215,13 @@ impl VM {
                         let height = self.stack_height();
                         self.lfp[id] = Value::fixnum(height as i64);
                     }
+                    Inst::RESTORE_SP => {
+                        let id = self.pc.read_lvar_id();
+                        let height = self.lfp[id].as_fnum() as usize;
+                        let val = self.stack_pop();
+                        self.restore_stack(height);
+                        self.stack_push(val);
+                    }
                     Inst::SET_DYNLOCAL => {
                         let id = self.pc.read_lvar_id();
                         let outer = self.pc.read32();
-- 
2.43.0


From e3a2d778b36180bf1428005744fbae3aab9529b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 16/57] fix: an exception passed on by an ensure clause skips
 the handler around it

---
 ruruby/src/codegen.rs              | 4 ++--
 ruruby/src/vm/executor/opt_core.rs | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index d574915..1620f32 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1213,8 +1213,8 @@ impl Codegen {
                         iseq.write_disp_from_cur(next_clause);
                     }
                     // When no rescue clause were matched
-                    self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
+                    self.save_loc(iseq, node.loc);
                     iseq.write_disp_from_cur(else_dest);
                     // If no exception occured, execute else clause.
                     if let Some(else_) = else_ {
@@ -1238,8 +1238,8 @@ impl Codegen {
                     // Ensure clause for exceptions and non-local exits.
                     let dest = iseq.current();
                     self.gen(globals, iseq, ensure, false)?;
-                    self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
+                    self.save_loc(iseq, node.loc);
                     iseq.write_disp_from_cur(end);
                     self.push_ex_rescue(entries, dest);
                 }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 3c88a1f..f5bb2e3 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -127,7 +127,6 @@ impl VM {
                     Inst::THROW => {
                         // - raise error
                         let val = self.stack_pop();
-                        self.pc -= 1;
                         return Err(self.resume_throw(val));
                     }
                     Inst::PUSH_NIL => self.stack_push(Value::nil()),
-- 
2.43.0


From fafa6b769181b4da62cd764c56ec04bda6447625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 17/57] fix: array methods read freed memory when the block
 changes the receiver

---
 ruruby/src/builtin/array.rs | 92 ++++++++++++++++++-------------------
 ruruby/src/value/array.rs   | 13 ++++++
 2 files changed, 58 insertions(+), 47 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 191865f..ba1a55a 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -433,20 +433,11 @@ fn map_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn flat_map(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     let block = args.expect_block()?;
-    let param_num = block.to_iseq(&vm.globals).params.req;
     let aref = vm.self_value().into_array();
     let temp_len = vm.temp_len();
-    for elem in &**aref {
-        let ary = if param_num == 0 {
-            vm.eval_block0(&block)?
-        } else if param_num == 1 {
-            vm.eval_block1(&block, *elem)?
-        } else {
-            match elem.as_array() {
-                Some(ary) => vm.eval_block(&block, &ary[0..param_num])?,
-                None => vm.eval_block1(&block, *elem)?,
-            }
-        };
+    let f = vm.eval_block_map1(block);
+    for elem in aref.live_iter() {
+        let ary = f(vm, elem)?;
 
         match ary.as_array() {
             Some(ary) => vm.temp_extend_from_slice(&**ary),
@@ -517,11 +508,12 @@ fn partition(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut res_true = vec![];
     let mut res_false = vec![];
     let f = vm.eval_block_map1(block);
-    for i in &**aref {
-        if f(vm, *i)?.to_bool() {
-            res_true.push(*i);
+    for elem in aref.live_iter() {
+        vm.temp_push(elem);
+        if f(vm, elem)?.to_bool() {
+            res_true.push(elem);
         } else {
-            res_false.push(*i);
+            res_false.push(elem);
         };
     }
     let ary = vec![
@@ -535,8 +527,8 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let target = vm[0];
     let aref = self_val.into_array();
-    for item in aref.iter() {
-        if vm.eval_eq2(*item, target)? {
+    for item in aref.live_iter() {
+        if vm.eval_eq2(item, target)? {
             return Ok(Value::true_val());
         }
     }
@@ -726,10 +718,12 @@ fn uniq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for elem in &**aref {
-                let res = f(vm, *elem)?;
+            for elem in aref.live_iter() {
+                vm.temp_push(elem);
+                let res = f(vm, elem)?;
+                vm.temp_push(res);
                 if h.insert(HashKey(res)) {
-                    v.push(*elem);
+                    v.push(elem);
                 };
             }
         }
@@ -969,10 +963,11 @@ fn sort_by(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut ary = vec![];
     {
         let f = vm.eval_block_map1(block);
-        for v in &**self_val.as_array().unwrap() {
-            let v1 = f(vm, *v)?;
+        for v in self_val.into_array().live_iter() {
+            vm.temp_push(v);
+            let v1 = f(vm, v)?;
             vm.temp_push(v1);
-            ary.push((*v, v1));
+            ary.push((v, v1));
         }
     }
     vm.sort_by(&mut ary, |vm, a, b| {
@@ -988,8 +983,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if vm.eval_teq(*v, vm[0])? {
+        for v in aref.live_iter() {
+            if vm.eval_teq(v, vm[0])? {
                 return Ok(Value::true_val());
             };
         }
@@ -1007,8 +1002,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if f(vm, *v)?.to_bool() {
+            for v in aref.live_iter() {
+                if f(vm, v)?.to_bool() {
                     return Ok(Value::true_val());
                 };
             }
@@ -1023,8 +1018,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if !vm.eval_teq(*v, vm[0])? {
+        for v in aref.live_iter() {
+            if !vm.eval_teq(v, vm[0])? {
                 return Ok(Value::false_val());
             };
         }
@@ -1042,8 +1037,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if !f(vm, *v)?.to_bool() {
+            for v in aref.live_iter() {
+                if !f(vm, v)?.to_bool() {
                     return Ok(Value::false_val());
                 };
             }
@@ -1066,8 +1061,8 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         1 => {
             let other = vm[0];
             let mut count = 0;
-            for elem in &**ary {
-                if vm.eval_eq2(*elem, other)? {
+            for elem in ary.live_iter() {
+                if vm.eval_eq2(elem, other)? {
                     count += 1;
                 }
             }
@@ -1082,8 +1077,8 @@ fn inject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = args.expect_block()?;
     let ary = self_val.expect_array("").unwrap();
     let mut res = vm[0];
-    for elem in ary.iter() {
-        res = vm.eval_block2(block, res, *elem)?;
+    for elem in ary.live_iter() {
+        res = vm.eval_block2(block, res, elem)?;
     }
     Ok(res)
 }
@@ -1104,8 +1099,8 @@ fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     let block = to_enum_str!(vm, self_val, args, "find_index");
     let f = vm.eval_block_map1(block);
-    for (i, elem) in ary.iter().enumerate() {
-        if f(vm, *elem)?.to_bool() {
+    for (i, elem) in ary.live_iter().enumerate() {
+        if f(vm, elem)?.to_bool() {
             return Ok(Value::integer(i as i64));
         };
     }
@@ -1118,9 +1113,10 @@ fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "reject");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if !f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.live_iter() {
+        vm.temp_push(elem);
+        if !f(vm, elem)?.to_bool() {
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1132,9 +1128,10 @@ fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "select");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.live_iter() {
+        vm.temp_push(elem);
+        if f(vm, elem)?.to_bool() {
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1145,9 +1142,10 @@ fn find(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let block = to_enum_str!(vm, self_val, args, "find");
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            return Ok(*elem);
+    for elem in ary.live_iter() {
+        vm.temp_push(elem);
+        if f(vm, elem)?.to_bool() {
+            return Ok(elem);
         };
     }
     Ok(Value::nil())
diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index c62cc5c..1edab9c 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use smallvec::SmallVec;
+use std::ops::Deref;
 
 #[derive(Debug, Clone, Copy)]
 pub struct Array(Value);
@@ -73,6 +74,18 @@ impl Array {
     pub(crate) fn id(self) -> u64 {
         self.0.id()
     }
+
+    /// Iterate over the elements.
+    ///
+    /// It is safe to modify the array (e.g. in a block) while iterating.
+    pub(crate) fn live_iter(self) -> impl Iterator<Item = Value> {
+        let mut i = 0;
+        std::iter::from_fn(move || {
+            let val = self.0.as_array()?.deref().get(i).copied();
+            i += 1;
+            val
+        })
+    }
 }
 
 const ARRAY_INLINE: usize = 4;
-- 
2.43.0


From 9aa2649c161b2a66f8974873a0229dfcd9b5a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 18/57] fix: Array#[] and []= with ranges and lengths out of
 bounds

---
 ruruby/src/value/array.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index 1edab9c..777cda5 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -240,17 +240,14 @@ impl ArrayInfo {
             return self.get_elem1(args[0]);
         };
         let index = args[0].coerce_to_fixnum("Index")?;
-        let self_len = self.len();
-        let index = self.get_array_index(index).unwrap_or(self_len);
         let len = args[1].coerce_to_fixnum("Index")?;
-        let val = if len < 0 {
-            Value::nil()
-        } else if index >= self_len {
-            Value::array_empty()
-        } else {
-            let len = len as usize;
-            let end = std::cmp::min(self_len, index + len);
-            Value::array_from_slice(&self[index..end])
+        let self_len = self.len();
+        let val = match self.get_array_index(index) {
+            Ok(index) if index <= self_len && len >= 0 => {
+                let end = index + std::cmp::min(len as usize, self_len - index);
+                Value::array_from_slice(&self[index..end])
+            }
+            _ => Value::nil(),
         };
         Ok(val)
     }
@@ -267,7 +264,7 @@ impl ArrayInfo {
                 i if i < 0 => len + i,
                 i => i,
             };
-            let start = if len < i_start {
+            let start = if i_start < 0 || len < i_start {
                 return Ok(Value::nil());
             } else if len == i_start {
                 return Ok(Value::array_empty());
@@ -283,7 +280,7 @@ impl ArrayInfo {
                     end
                 }
             } else {
-                (len + i_end + if range.exclude { 0 } else { 1 }) as usize
+                std::cmp::max(0, len + i_end + if range.exclude { 0 } else { 1 }) as usize
             };
             if start >= end {
                 return Ok(Value::array_empty());
@@ -333,14 +330,11 @@ impl ArrayInfo {
             };
             let last = {
                 let i = range.end.coerce_to_fixnum("End of the range")?;
-                self.get_array_index(i)? + if range.exclude { 0 } else { 1 }
+                let i = if i < 0 { self.len() as i64 + i } else { i };
+                i + if range.exclude { 0 } else { 1 }
             };
-            if last < first {
-                self.set_elem2(first, 0, val)
-            } else {
-                let length = last - first;
-                self.set_elem2(first, length, val)
-            }
+            let length = std::cmp::max(0, last - first as i64) as usize;
+            self.set_elem2(first, length, val)
         } else {
             Err(VMError::no_implicit_conv(idx, "Integer or Range"))
         }
-- 
2.43.0


From 85a58ef7aef49cf3a9d9a96f83ccf2b54b9173ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 19/57] fix: == and === ignore user-defined methods, ranges and
 procs, and round integers

---
 ruruby/src/arith.rs           | 54 +++++++++-------------
 ruruby/src/builtin/complex.rs |  2 +-
 ruruby/src/builtin/object.rs  |  8 +++-
 ruruby/src/builtin/procobj.rs |  1 +
 ruruby/src/builtin/range.rs   | 30 +++++++++----
 ruruby/src/value/real.rs      | 12 +----
 ruruby/src/value/value.rs     | 16 ++-----
 ruruby/src/vm/executor/ops.rs | 85 ++++++++++++++++++-----------------
 8 files changed, 101 insertions(+), 107 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index cd1c47d..e57dd33 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -125,18 +125,29 @@ pub(crate) fn exp_float(lhsf: f64, rhs: Value) -> VMResult {
     Ok(Value::float(f))
 }
 
+/// Compare a fixnum with a float by their exact mathematical values.
+fn cmp_fixnum_float(lhsi: i64, rhsf: f64) -> Option<std::cmp::Ordering> {
+    // Integers up to this absolute value are converted into f64 without rounding.
+    const EXACT: i64 = 1 << 53;
+    if -EXACT <= lhsi && lhsi <= EXACT {
+        (lhsi as f64).partial_cmp(&rhsf)
+    } else if rhsf.is_nan() {
+        None
+    } else {
+        // Saturates at i64::MIN and i64::MAX, which are not fixnums.
+        let ord = lhsi.cmp(&(rhsf.trunc() as i64));
+        ord.then(0.0.partial_cmp(&rhsf.fract()).unwrap_or(ord)).into()
+    }
+}
+
 /// compare operation (<=>)
 pub(crate) fn cmp_fixnum(lhsi: i64, rhs: Value) -> Option<std::cmp::Ordering> {
     if let Some(rhsi) = rhs.as_fixnum() {
         lhsi.partial_cmp(&rhsi)
     } else if let Some(rhsf) = rhs.as_float() {
-        (lhsi as f64).partial_cmp(&rhsf)
+        cmp_fixnum_float(lhsi, rhsf)
     } else if let Some(rhsb) = rhs.as_bignum() {
-        if rhsb.is_positive() {
-            Some(std::cmp::Ordering::Less)
-        } else {
-            Some(std::cmp::Ordering::Greater)
-        }
+        BigInt::from(lhsi).partial_cmp(&rhsb)
     } else {
         None
     }
@@ -144,21 +155,11 @@ pub(crate) fn cmp_fixnum(lhsi: i64, rhs: Value) -> Option<std::cmp::Ordering> {
 
 pub(crate) fn cmp_float(lhsf: f64, rhs: Value) -> Option<std::cmp::Ordering> {
     if let Some(rhsi) = rhs.as_fixnum() {
-        lhsf.partial_cmp(&(rhsi as f64))
+        cmp_fixnum_float(rhsi, lhsf).map(|ord| ord.reverse())
     } else if let Some(rhsf) = rhs.as_float() {
         lhsf.partial_cmp(&rhsf)
     } else if let Some(rhsb) = rhs.as_bignum() {
-        if lhsf.is_infinite() {
-            if lhsf == f64::INFINITY {
-                Some(std::cmp::Ordering::Greater)
-            } else if lhsf == f64::NEG_INFINITY {
-                Some(std::cmp::Ordering::Less)
-            } else {
-                unreachable!()
-            }
-        } else {
-            lhsf.partial_cmp(&rhsb.to_f64().unwrap())
-        }
+        cmp_bignum(&rhsb, Value::float(lhsf)).map(|ord| ord.reverse())
     } else {
         None
     }
@@ -184,22 +185,11 @@ pub(crate) fn cmp_float(lhsf: f64, rhs: Value) -> Option<std::cmp::Ordering> {
 /// assert_eq!(cmp_bignum(&big, Value::float(f64::NEG_INFINITY)), Some(Greater));
 /// ```
 pub fn cmp_bignum(lhsb: &BigInt, rhs: Value) -> Option<std::cmp::Ordering> {
-    use std::cmp::Ordering::*;
-    if let Some(_) = rhs.as_fixnum() {
-        if lhsb.is_positive() {
-            Some(Greater)
-        } else {
-            Some(Less)
-        }
+    if let Some(rhsi) = rhs.as_fixnum() {
+        lhsb.partial_cmp(&BigInt::from(rhsi))
     } else if let Some(rhsf) = rhs.as_float() {
         if rhsf.is_infinite() {
-            if rhsf == f64::INFINITY {
-                Some(Less)
-            } else if rhsf == f64::NEG_INFINITY {
-                Some(Greater)
-            } else {
-                unreachable!()
-            }
+            0.0.partial_cmp(&rhsf)
         } else {
             lhsb.to_f64().unwrap().partial_cmp(&rhsf)
         }
diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index 61c28e4..ccbd5c7 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -86,7 +86,7 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let (r1, i1) = self_val.to_complex().unwrap();
     let (r2, i2) = match vm[0].to_complex() {
         Some(t) => t,
-        None => return Err(RubyError::typeerr("Not a real.")),
+        None => return Ok(Value::false_val()),
     };
     let b = r1 == r2 && i1 == i2;
     Ok(Value::bool(b))
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 5815b58..869eb49 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -12,7 +12,7 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "inspect", inspect);
     object.add_builtin_method_by_str(globals, "equal?", equal);
     object.add_builtin_method_by_str(globals, "==", equal);
-    object.add_builtin_method_by_str(globals, "===", equal);
+    object.add_builtin_method_by_str(globals, "===", teq);
     object.add_builtin_method_by_str(globals, "=~", match_); // This method is deprecated from Ruby 2.6.
     object.add_builtin_method_by_str(globals, "<=>", cmp);
     object.add_builtin_method_by_str(globals, "eql?", eql);
@@ -180,6 +180,12 @@ fn equal(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(self_val.id() == vm[0].id()))
 }
 
+fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = vm.eval_eq2(vm[0], self_val)?;
+    Ok(Value::bool(b))
+}
+
 fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
     let receiver = self_val;
diff --git a/ruruby/src/builtin/procobj.rs b/ruruby/src/builtin/procobj.rs
index 5d524c4..25795fb 100644
--- a/ruruby/src/builtin/procobj.rs
+++ b/ruruby/src/builtin/procobj.rs
@@ -39,6 +39,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "call", proc_call);
     class.add_builtin_method_by_str(globals, "[]", proc_call);
+    class.add_builtin_method_by_str(globals, "===", proc_call);
 
     class.add_builtin_class_method(globals, "new", proc_new);
     class.into()
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 83289b5..5386c75 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -51,6 +51,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "to_a", to_a);
     class.add_builtin_method_by_str(globals, "exclude_end?", exclude_end);
     class.add_builtin_method_by_str(globals, "include?", include);
+    class.add_builtin_method_by_str(globals, "===", teq);
 
     class.add_builtin_class_method(globals, "new", range_new);
     class.into()
@@ -240,6 +241,25 @@ fn exclude_end(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(range.exclude))
 }
 
+/// Return whether `range.start` <= `val` <= (or < ) `range.end` holds by `<=>` method.
+fn cover(vm: &mut VM, range: &RangeInfo, val: Value) -> Result<bool, RubyError> {
+    match vm.eval_compare(val, range.start)?.as_fixnum() {
+        Some(ord) if ord <= 0 => {}
+        _ => return Ok(false),
+    }
+    Ok(match vm.eval_compare(range.end, val)?.as_fixnum() {
+        Some(ord) => ord < 0 || (ord == 0 && !range.exclude),
+        None => false,
+    })
+}
+
+fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let range = self_val.as_range().unwrap();
+    let b = cover(vm, &range, vm[0])?;
+    Ok(Value::bool(b))
+}
+
 fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let range = self_val.as_range().unwrap();
@@ -265,15 +285,7 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             Ok(Value::bool(b))
         }
         _ => {
-            let args = args.into(vm);
-            if !vm.eval_send(IdentId::_LE, range.start, &args)?.to_bool() {
-                return Ok(Value::false_val());
-            };
-            let b = if range.exclude {
-                vm.eval_send(IdentId::_GT, range.end, &args)?.to_bool()
-            } else {
-                vm.eval_send(IdentId::_GE, range.end, &args)?.to_bool()
-            };
+            let b = cover(vm, &range, vm[0])?;
             Ok(Value::bool(b))
         }
     }
diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index c4e5d3d..4d25c45 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -146,17 +146,7 @@ impl Div for Real {
 
 impl PartialEq for Real {
     fn eq(&self, other: &Self) -> bool {
-        match (self, other) {
-            (Real::Bignum(n1), Real::Bignum(n2)) => n1 == n2,
-            (Real::Bignum(_), Real::Integer(_)) => false,
-            (Real::Bignum(n1), Real::Float(f2)) => n1.to_f64().unwrap() == *f2,
-            (Real::Integer(_), Real::Bignum(_)) => false,
-            (Real::Integer(i1), Real::Integer(i2)) => i1 == i2,
-            (Real::Integer(i1), Real::Float(f2)) => *i1 as f64 == *f2,
-            (Real::Float(f1), Real::Bignum(n2)) => *f1 == n2.to_f64().unwrap(),
-            (Real::Float(f1), Real::Integer(i2)) => *f1 == *i2 as f64,
-            (Real::Float(f1), Real::Float(f2)) => f1 == f2,
-        }
+        self.partial_cmp(other) == Some(std::cmp::Ordering::Equal)
     }
 }
 
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 368eca1..fa68b35 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -77,24 +77,14 @@ impl PartialEq for Value {
         if self.id() == other.id() {
             return true;
         };
+        if let (Some(lhs), Some(rhs)) = (self.to_real(), other.to_real()) {
+            return lhs == rhs;
+        }
         if self.is_packed_value() || other.is_packed_value() {
-            if let Some(lhsi) = self.as_fixnum() {
-                if let Some(rhsf) = other.as_flonum() {
-                    return lhsi as f64 == rhsf;
-                }
-            } else if let Some(lhsf) = self.as_flonum() {
-                if let Some(rhsi) = other.as_fixnum() {
-                    return rhsi as f64 == lhsf;
-                }
-            }
             return false;
         }
         let (lhs, rhs) = (self.rvalue(), other.rvalue());
         match (lhs.kind(), rhs.kind()) {
-            (ObjKind::BIGNUM, ObjKind::BIGNUM) => *lhs.bignum() == *rhs.bignum(),
-            (ObjKind::BIGNUM, ObjKind::FLOAT) => lhs.bignum().to_f64().unwrap() == rhs.float(),
-            (ObjKind::FLOAT, ObjKind::FLOAT) => lhs.float() == rhs.float(),
-            (ObjKind::FLOAT, ObjKind::BIGNUM) => lhs.float() == rhs.bignum().to_f64().unwrap(),
             (ObjKind::COMPLEX, ObjKind::COMPLEX) => {
                 let RubyComplex { r: r1, i: i1 } = *lhs.complex();
                 let RubyComplex { r: r2, i: i2 } = *rhs.complex();
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 692f250..6619cf2 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -265,14 +265,14 @@ macro_rules! eval_cmp2 {
             if let Some(rhsi) = $rhs.as_fixnum() {
                 Ok(lhsi.$op(&rhsi))
             } else if let Some(rhsf) = $rhs.as_flonum() {
-                Ok((lhsi as f64).$op(&rhsf))
+                Ok(Real::Integer(lhsi).$op(&Real::Float(rhsf)))
             } else {
                 let v = $vm.eval_send1($id, $lhs, $rhs)?;
                 Ok(v.to_bool())
             }
         } else if let Some(lhsf) = $lhs.as_flonum() {
             if let Some(rhsi) = $rhs.as_fixnum() {
-                Ok(lhsf.$op(&(rhsi as f64)))
+                Ok(Real::Float(lhsf).$op(&Real::Integer(rhsi)))
             } else if let Some(rhsf) = $rhs.as_flonum() {
                 Ok(lhsf.$op(&rhsf))
             } else {
@@ -308,11 +308,9 @@ impl VM {
         let (lhs, rhs) = self.stack_pop2();
         let b = match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::MODULE | ObjKind::CLASS => {
-                    return self.invoke_send1(IdentId::_TEQ, lhs, rhs);
-                }
                 ObjKind::REGEXP => self.teq_regexp(oref, rhs)?,
-                _ => self.eval_eq2(rhs, lhs)?,
+                ObjKind::STRING | ObjKind::ARRAY | ObjKind::HASH => self.eval_eq2(rhs, lhs)?,
+                _ => return self.invoke_send1(IdentId::_TEQ, lhs, rhs),
             },
             None => self.eval_eq2(rhs, lhs)?,
         };
@@ -332,17 +330,18 @@ impl VM {
         Ok(RegexpInfo::find_one(self, &*re, &given)?.is_some())
     }
 
+    /// Case equality (`lhs` === `rhs`).
     pub(crate) fn eval_teq(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
         match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::MODULE | ObjKind::CLASS => {
+                ObjKind::REGEXP => self.teq_regexp(oref, rhs),
+                ObjKind::STRING | ObjKind::ARRAY | ObjKind::HASH => self.eval_eq2(rhs, lhs),
+                _ => {
                     let v = self.eval_send1(IdentId::_TEQ, lhs, rhs)?;
                     Ok(v.to_bool())
                 }
-                ObjKind::REGEXP => self.teq_regexp(oref, rhs),
-                _ => self.eval_eq2(lhs, rhs),
             },
-            None => self.eval_eq2(lhs, rhs),
+            None => self.eval_eq2(rhs, lhs),
         }
     }
 
@@ -356,39 +355,45 @@ impl VM {
     ///
     /// ex. 3.0 == 3.
     pub(crate) fn eval_eq2(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
-        if let Some(lhsi) = lhs.as_fixnum() {
-            if let Some(rhsi) = rhs.as_fixnum() {
-                return Ok(lhsi == rhsi);
-            } else if let Some(rhsf) = rhs.as_flonum() {
-                return Ok(lhsi as f64 == rhsf);
-            }
-        } else if let Some(lhsf) = lhs.as_flonum() {
-            if let Some(rhsf) = rhs.as_flonum() {
-                if lhsf.is_nan() && rhsf.is_nan() {
-                    return Ok(false);
-                } else {
-                    return Ok(lhsf == rhsf);
-                }
-            } else if let Some(rhsi) = rhs.as_fixnum() {
-                return Ok(rhsi as f64 == lhsf);
-            }
+        if let (Some(lhsi), Some(rhsi)) = (lhs.as_fixnum(), rhs.as_fixnum()) {
+            return Ok(lhsi == rhsi);
         }
-        if rhs.is_packed_value() || lhs.is_packed_value() {
+        if let Some(lhs_real) = lhs.to_real() {
+            return match rhs.to_real() {
+                Some(rhs_real) => Ok(lhs_real == rhs_real),
+                None => match rhs.as_rvalue() {
+                    Some(oref) => match oref.kind() {
+                        // Leave it to the right-hand side.
+                        ObjKind::ORDINARY | ObjKind::COMPLEX => {
+                            let v = self.eval_send1(IdentId::_EQ, rhs, lhs)?;
+                            Ok(v.to_bool())
+                        }
+                        _ => Ok(false),
+                    },
+                    None => Ok(false),
+                },
+            };
+        }
+        if lhs.is_packed_value() {
             return Ok(lhs.id() == rhs.id());
         }
         if lhs.id() == rhs.id() {
-            return Ok(true);
+            match lhs.rvalue().kind() {
+                ObjKind::ORDINARY => {}
+                _ => return Ok(true),
+            }
         };
+        if rhs.is_packed_value() {
+            return match lhs.rvalue().kind() {
+                ObjKind::ORDINARY | ObjKind::COMPLEX => {
+                    let v = self.eval_send1(IdentId::_EQ, lhs, rhs)?;
+                    Ok(v.to_bool())
+                }
+                _ => Ok(false),
+            };
+        }
         let (lhsr, rhsr) = (lhs.rvalue(), rhs.rvalue());
         match (lhsr.kind(), rhsr.kind()) {
-            (ObjKind::BIGNUM, ObjKind::BIGNUM) => Ok(*lhsr.bignum() == *rhsr.bignum()),
-            (ObjKind::FLOAT, ObjKind::FLOAT) => Ok(lhsr.float() == rhsr.float()),
-            (ObjKind::BIGNUM, ObjKind::FLOAT) => {
-                Ok(lhsr.bignum().to_f64().unwrap() == rhsr.float())
-            }
-            (ObjKind::FLOAT, ObjKind::BIGNUM) => {
-                Ok(lhsr.float() == rhsr.bignum().to_f64().unwrap())
-            }
             (ObjKind::COMPLEX, ObjKind::COMPLEX) => {
                 let RubyComplex { r: r1, i: i1 } = *lhsr.complex();
                 let RubyComplex { r: r2, i: i2 } = *rhsr.complex();
@@ -425,10 +430,10 @@ impl VM {
                     rhs.rvalue()
                 )))
             }
-            (_, _) => match self.eval_send1(IdentId::_EQ, lhs, rhs) {
-                Ok(v) => Ok(v.to_bool()),
-                _ => Ok(false),
-            },
+            (_, _) => {
+                let v = self.eval_send1(IdentId::_EQ, lhs, rhs)?;
+                Ok(v.to_bool())
+            }
         }
     }
 
-- 
2.43.0


From 1aedd9a5102c84a8f441299f46014bc4b11b3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 20/57] fix: Array methods on nested arrays, equality,
 out-of-range counts and the receiver itself

---
 ruruby/src/builtin/array.rs | 172 +++++++++++++++++++-----------------
 1 file changed, 89 insertions(+), 83 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index ba1a55a..bf3f8c3 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -146,10 +146,10 @@ fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let s = match ary.len() {
         0 => "[]".to_string(),
-        len => {
+        _ => {
             let mut result = checked_inspect(vm, self_val, ary[0])?;
-            for i in 1..len {
-                result = format!("{}, {}", result, checked_inspect(vm, self_val, ary[i])?);
+            for elem in ary.live_iter().skip(1) {
+                result = format!("{}, {}", result, checked_inspect(vm, self_val, elem)?);
             }
             format! {"[{}]", result}
         }
@@ -267,9 +267,7 @@ fn shift(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
     let mut ary = self_val.into_array();
     if array_flag {
-        if ary.len() < num {
-            return Ok(Value::array_empty().into());
-        }
+        let num = std::cmp::min(num, ary.len());
         let new = ArrayInfo::new_from_slice(&ary[num..]);
         let res = Value::array_from_slice(&ary[0..num]);
         *ary = new;
@@ -318,21 +316,9 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         let res = Value::array_from_with_class(v, vm.globals.get_class(self_val));
         Ok(res.into())
     } else if let Some(s) = vm[0].clone().as_string() {
-        match ary.len() {
-            0 => return Ok(Value::string("")),
-            1 => {
-                let res = ary[0].val_to_s(vm)?;
-                return Ok(Value::string(res));
-            }
-            _ => {
-                let mut res = ary[0].val_to_s(vm)?.to_string();
-                for i in 1..ary.len() {
-                    let elem = ary[i].val_to_s(vm)?;
-                    res = res + s + &elem;
-                }
-                return Ok(Value::string(res));
-            }
-        };
+        let sep = s.to_string();
+        let res = join_array(vm, ary, &sep)?;
+        Ok(Value::string(res))
     } else {
         return Err(VMError::no_implicit_conv(vm[0], "Integer"));
     }
@@ -348,29 +334,21 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn concat(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = &mut *self_val.into_array();
-    let rhs = &**vm[0].expect_array("Argument")?;
-    lhs.extend_from_slice(rhs);
+    // Both may be the same array.
+    let rhs = vm[0].expect_array("Argument")?.to_vec();
+    self_val.into_array().extend_from_slice(&rhs);
     Ok(self_val)
 }
 
 fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs_v = &**self_val.expect_array("Receiver")?;
-    let rhs_v = &**vm[0].expect_array("Argument")?;
-    let mut v = vec![];
-    for lhs in lhs_v {
-        let mut flag = true;
-        for rhs in rhs_v {
-            if vm.eval_eq2(*lhs, *rhs)? {
-                flag = false;
-                break;
-            }
-        }
-        if flag {
-            v.push(*lhs)
-        }
-    }
+    let lhs = self_val.into_array();
+    let rhs = vm[0].expect_array("Argument")?;
+    let v = lhs
+        .iter()
+        .filter(|lhs| rhs.iter().all(|rhs| !lhs.eql(rhs)))
+        .cloned()
+        .collect();
     Ok(Value::array_from(v))
 }
 
@@ -424,7 +402,8 @@ fn map_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut i = 0;
     let f = vm.eval_block_map1(block);
     while i < aref.len() {
-        aref[i] = f(vm, aref[i])?;
+        let val = f(vm, aref[i])?;
+        aref.set_elem_imm(i, val);
         i += 1;
     }
 
@@ -528,7 +507,7 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let target = vm[0];
     let aref = self_val.into_array();
     for item in aref.live_iter() {
-        if vm.eval_eq2(item, target)? {
+        if vm.eval_eq2(target, item)? {
             return Ok(Value::true_val());
         }
     }
@@ -668,9 +647,9 @@ fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         return Ok(Value::nil());
     }
     let mut max = aref[0];
-    for elem in &**aref {
-        if vm.eval_gt2(max, *elem)? {
-            max = *elem;
+    for elem in aref.live_iter() {
+        if vm.eval_gt2(max, elem)? {
+            max = elem;
         };
     }
     Ok(max)
@@ -759,11 +738,20 @@ fn uniq_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => {
             let mut aref = self_val.into_array();
             let f = vm.eval_block_map1(block);
-            aref.retain(|x| {
-                let res = f(vm, *x)?;
+            let mut v = vec![];
+            for elem in aref.live_iter() {
+                vm.temp_push(elem);
+                let res = f(vm, elem)?;
                 vm.temp_push(res);
-                Ok(h.insert(HashKey(res)))
-            })?
+                if h.insert(HashKey(res)) {
+                    v.push(elem);
+                };
+            }
+            let deleted = v.len() < aref.len();
+            if deleted {
+                *aref = ArrayInfo::new(v);
+            }
+            deleted
         }
     };
     if deleted {
@@ -858,27 +846,36 @@ fn join(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             None => return Err(RubyError::argument("Seperator must be String.")),
         }
     };
-    let aref = self_val.into_array();
+    let res = join_array(vm, self_val.into_array(), &sep)?;
+    Ok(Value::string(res))
+}
+
+/// Join the elements of `ary` with `sep`. Nested arrays are joined recursively.
+fn join_array(vm: &mut VM, ary: Array, sep: &str) -> Result<String, RubyError> {
     let mut res = String::new();
-    for elem in &**aref {
-        let s = elem.val_to_s(vm)?;
-        if res.is_empty() {
-            res = s.into_owned();
-        } else {
-            res = res + &sep + &s;
+    for (i, elem) in ary.live_iter().enumerate() {
+        if i != 0 {
+            res += sep;
+        }
+        match elem.as_array() {
+            Some(inner) if inner.id() == ary.id() => {
+                return Err(RubyError::argument("Recursive array join."))
+            }
+            Some(inner) => res += &join_array(vm, inner, sep)?,
+            None => res += &elem.val_to_s(vm)?,
         }
     }
-    Ok(Value::string(res))
+    Ok(res)
 }
 
 fn drop(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let aref = self_val.into_array();
-    let num = vm[0].coerce_to_fixnum("An argument must be Integer.")? as usize;
-    if num >= aref.len() {
-        return Err(RubyError::argument(format!("An argument too big. {}", num)));
+    let num = vm[0].coerce_to_fixnum("An argument must be Integer.")?;
+    if num < 0 {
+        return Err(RubyError::argument("Attempt to drop negative size."));
     };
-    let ary = &aref[num..];
+    let ary = &aref[std::cmp::min(num as usize, aref.len())..];
     Ok(Value::array_from(ary.to_vec()))
 }
 
@@ -917,16 +914,18 @@ fn zip(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn grep(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let aref = self_val.into_array();
-    let ary = match &args.block {
-        None => aref
-            .iter()
-            .filter_map(|x| match vm.eval_teq(*x, vm[0]) {
-                Ok(true) => Some(*x),
-                _ => None,
-            })
-            .collect(),
-        _ => unimplemented!(),
-    };
+    let pattern = vm[0];
+    let mut ary = vec![];
+    for elem in aref.live_iter() {
+        if vm.eval_teq(elem, pattern)? {
+            let val = match &args.block {
+                None => elem,
+                Some(block) => vm.eval_block1(block, elem)?,
+            };
+            vm.temp_push(val);
+            ary.push(val);
+        }
+    }
     Ok(Value::array_from(ary))
 }
 
@@ -1062,7 +1061,7 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             let other = vm[0];
             let mut count = 0;
             for elem in ary.live_iter() {
-                if vm.eval_eq2(elem, other)? {
+                if vm.eval_eq2(other, elem)? {
                     count += 1;
                 }
             }
@@ -1090,8 +1089,9 @@ fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("Warning: given block not used.")
         };
-        for (i, v) in ary.iter().enumerate() {
-            if v.eq(&vm[0]) {
+        let target = vm[0];
+        for (i, elem) in ary.live_iter().enumerate() {
+            if vm.eval_eq2(target, elem)? {
                 return Ok(Value::integer(i as i64));
             };
         }
@@ -1158,10 +1158,12 @@ fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>
     let mut i_min = 0;
     let mut i_max = ary.len() - 1;
     let f = vm.eval_block_map1(block);
-    if f(vm, ary[0])?.expect_bool_nil_num()? {
+    // The block may shrink the array.
+    let elem = |i| ary.get(i).copied().unwrap_or_default();
+    if f(vm, elem(0))?.expect_bool_nil_num()? {
         return Ok(Some(0));
     };
-    if !f(vm, ary[i_max])?.expect_bool_nil_num()? {
+    if !f(vm, elem(i_max))?.expect_bool_nil_num()? {
         return Ok(None);
     };
 
@@ -1170,7 +1172,7 @@ fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>
         if i_mid == i_min {
             return Ok(Some(i_max));
         };
-        if f(vm, ary[i_mid])?.expect_bool_nil_num()? {
+        if f(vm, elem(i_mid))?.expect_bool_nil_num()? {
             i_max = i_mid;
         } else {
             i_min = i_mid;
@@ -1188,7 +1190,7 @@ fn bsearch(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let block = to_enum_str!(vm, self_val, args, "bsearch");
     match binary_search(vm, ary, block)? {
-        Some(i) => Ok(ary[i]),
+        Some(i) => Ok(ary.get(i).copied().unwrap_or_default()),
         None => Ok(Value::nil()),
     }
 }
@@ -1214,14 +1216,18 @@ fn delete(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.expect_no_block()?;
     let mut aref = self_val.into_array();
     let mut removed = None;
-    aref.retain(|x| {
-        if x.eq(&arg) {
-            removed = Some(*x);
-            Ok(false)
+    let mut rest = vec![];
+    for elem in aref.live_iter() {
+        vm.temp_push(elem);
+        if vm.eval_eq2(arg, elem)? {
+            removed = Some(elem);
         } else {
-            Ok(true)
+            rest.push(elem);
         }
-    })?;
+    }
+    if removed.is_some() {
+        *aref = ArrayInfo::new(rest);
+    }
     Ok(removed.unwrap_or(Value::nil()))
 }
 
-- 
2.43.0


From 46b032d3b8e5e586c52ecd576fbf0344ee5b4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:28 +0000
Subject: [PATCH 21/57] fix: Array#transpose accepts rows of different sizes
 when the first one is empty

---
 ruruby/src/builtin/array.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index bf3f8c3..c3196b4 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -591,21 +591,19 @@ fn transpose(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         .as_array()
         .ok_or_else(|| RubyError::argument("Each element of receiver must be an array."))?
         .len();
-    let mut trans = vec![];
-    for i in 0..len {
-        let mut temp = vec![];
-        for v in aref {
-            let a = &**v
-                .as_array()
-                .ok_or_else(|| RubyError::argument("Each element of receiver must be an array."))?;
-            if a.len() != len {
-                return Err(RubyError::index("Element size differs."));
-            }
-            temp.push(a[i]);
+    let mut trans: Vec<Vec<Value>> = vec![vec![]; len];
+    for v in aref {
+        let a = v
+            .as_array()
+            .ok_or_else(|| RubyError::argument("Each element of receiver must be an array."))?;
+        if a.len() != len {
+            return Err(RubyError::index("Element size differs."));
+        }
+        for (i, elem) in a.iter().enumerate() {
+            trans[i].push(*elem);
         }
-        let ary = Value::array_from(temp).into();
-        trans.push(ary);
     }
+    let trans = trans.into_iter().map(Value::array_from).collect();
     let res = Value::array_from(trans).into();
     Ok(res)
 }
-- 
2.43.0


From 0551a8a35a0240f81776d9a14831f41cbd8f853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 22/57] fix: super, include and prepend follow the ancestors;
 super and send pass blocks and keywords on

---
 ruruby-common/src/vm_inst.rs       |   2 +-
 ruruby/src/builtin/module.rs       |  50 +++-----
 ruruby/src/builtin/object.rs       |  32 +++--
 ruruby/src/codegen.rs              |  23 ++--
 ruruby/src/codegen/send.rs         |  62 ++++++----
 ruruby/src/globals.rs              |  13 +-
 ruruby/src/globals/method.rs       |  25 ++++
 ruruby/src/value/class.rs          | 184 ++++++++++++++++++-----------
 ruruby/src/vm/executor/frame.rs    |   5 +
 ruruby/src/vm/executor/method.rs   |   3 +-
 ruruby/src/vm/executor/opt_core.rs | 122 ++++++++++++++-----
 11 files changed, 337 insertions(+), 184 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index a19f51a..19f71a6 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -347,7 +347,7 @@ impl Inst {
             | Inst::RESCUE              // number of items: u32
             => 5,
 
-            Inst::SUPER  => 8,
+            Inst::SUPER => 9,
             // number of args: u16 / block: u32 / flag: u8
 
             Inst::PUSH_VAL              // value: Value
diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 5179616..3e10f19 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -80,7 +80,7 @@ fn module_constants(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/Module/i/=3d=3d=3d.html
 fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let class = vm.globals.get_class(vm[0]);
+    let class = vm.globals.get_class_for_method(vm[0]);
     let self_val = self_val.into_module();
     Ok(Value::bool(class.include_module(self_val)))
 }
@@ -236,7 +236,7 @@ fn const_get(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 pub(crate) fn instance_methods(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
-    let mut module = self_val.into_module();
+    let module = self_val.into_module();
     let inherited_too = args.len() == 0 || vm[0].to_bool();
     match inherited_too {
         false => {
@@ -245,16 +245,10 @@ pub(crate) fn instance_methods(vm: &mut VM, self_val: Value, args: &Args2) -> VM
         }
         true => {
             let mut v = FxIndexSet::default();
-            loop {
+            for module in module.ancestors() {
                 for k in module.method_names() {
                     v.insert(*k);
                 }
-                match module.upper() {
-                    None => break,
-                    Some(upper) => {
-                        module = upper;
-                    }
-                }
             }
             Ok(Value::array_from(
                 v.into_iter().map(|id| Value::symbol(id)).collect(),
@@ -395,35 +389,25 @@ fn prepend(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
 
 fn included_modules(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let mut module = Some(self_val.into_module());
-    let mut ary = vec![];
-    loop {
-        match module {
-            None => break,
-            Some(m) => {
-                if m.is_included() {
-                    ary.push(m.origin().unwrap().into())
-                };
-                module = m.upper();
-            }
-        }
-    }
+    let ary = self_val
+        .into_module()
+        .ancestors()
+        .iter()
+        .map(|m| m.real_module())
+        .filter(|m| m.is_module() && m.id() != self_val.id())
+        .map(|m| m.into())
+        .collect();
     Ok(Value::array_from(ary))
 }
 
 fn ancestors(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let mut module = Some(self_val.into_module());
-    let mut ary = vec![];
-    loop {
-        match module {
-            None => break,
-            Some(m) => {
-                ary.push(m.real_module().into());
-                module = m.upper();
-            }
-        }
-    }
+    let ary = self_val
+        .into_module()
+        .ancestors()
+        .iter()
+        .map(|m| m.real_module().into())
+        .collect();
     Ok(Value::array_from(ary))
 }
 
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 869eb49..0f52938 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -188,18 +188,32 @@ fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
-    let receiver = self_val;
     let method_id = match vm[0].as_symbol() {
         Some(symbol) => symbol,
-        None => return Err(RubyError::argument("Must be a symbol.")),
+        None => IdentId::get_id(match vm[0].as_string() {
+            Some(name) => name,
+            None => return Err(RubyError::argument("Must be a symbol.")),
+        }),
     };
-    let fid = receiver.get_method_or_nomethod(&mut vm.globals, method_id)?;
-
-    let (mut src, mut len) = vm.args_range();
-    src += 1;
-    len -= 1;
-    let new_arg = Args2::new_with_block(len, args.block.clone());
-    vm.eval_method_range(fid, self_val, src, len, &new_arg)
+    let (src, len) = vm.args_range();
+    let fid = match self_val.get_method_or_nomethod(&mut vm.globals, method_id) {
+        Ok(fid) => fid,
+        Err(err) => {
+            // the name and the other arguments go to method_missing
+            let missing = vm
+                .globals
+                .find_method_from_receiver(self_val, IdentId::_METHOD_MISSING);
+            return match missing {
+                Some(fid) if vm[0].is_packed_symbol() => {
+                    vm.eval_method_range(fid, self_val, src, len, args)
+                }
+                _ => Err(err),
+            };
+        }
+    };
+    let mut new_arg = Args2::new_with_block(len - 1, args.block.clone());
+    new_arg.kw_arg = args.kw_arg;
+    vm.eval_method_range(fid, self_val, src + 1, len - 1, &new_arg)
 }
 
 fn to_enum(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 1620f32..3e40370 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1478,18 +1478,11 @@ impl Codegen {
                 iseq.gen_push_self();
                 match arglist {
                     None => {
-                        self.emit_super(iseq, 0, None, true);
+                        self.emit_super(iseq, 0, None, ArgFlag::default(), true);
                     }
                     Some(arglist) => {
-                        let len = arglist.args.len();
-                        for arg in arglist.args {
-                            self.gen(globals, iseq, arg, true)?;
-                        }
-                        let (block, flag) = self.get_block(globals, iseq, arglist.block)?;
-                        if flag {
-                            unreachable!("Block param is not supported for super.")
-                        }
-                        self.emit_super(iseq, len, block, false);
+                        let (args_num, flag, block) = self.gen_args(globals, iseq, arglist)?;
+                        self.emit_super(iseq, args_num, block, flag, false);
                     }
                 }
 
@@ -1713,11 +1706,19 @@ impl Codegen {
         self.save_cur_loc(iseq);
     }
 
-    fn emit_super(&mut self, iseq: &mut ISeq, arg_num: usize, block: Option<FnId>, no_arg: bool) {
+    fn emit_super(
+        &mut self,
+        iseq: &mut ISeq,
+        arg_num: usize,
+        block: Option<FnId>,
+        flag: ArgFlag,
+        no_arg: bool,
+    ) {
         iseq.push(Inst::SUPER);
         iseq.push16(arg_num as u32 as u16);
         iseq.push_method(block);
         iseq.push8(if no_arg { 1 } else { 0 });
+        iseq.push_argflag(flag);
         self.save_cur_loc(iseq);
     }
 
diff --git a/ruruby/src/codegen/send.rs b/ruruby/src/codegen/send.rs
index 34bf5eb..918de5e 100644
--- a/ruruby/src/codegen/send.rs
+++ b/ruruby/src/codegen/send.rs
@@ -30,7 +30,43 @@ impl Codegen {
         } else {
             self.gen(globals, iseq, receiver.clone(), true)?;
         }
-        //let loc = self.loc;
+        // `nil&.method` is nil, and its arguments are not evaluated.
+        let src = if safe_nav {
+            iseq.gen_dup(1);
+            iseq.gen_push_nil();
+            iseq.push(Inst::NE);
+            Some(iseq.gen_jmp_if_f())
+        } else {
+            None
+        };
+        let (args_num, flag, block_ref) = self.gen_args(globals, iseq, arglist)?;
+        let use_res = use_value || safe_nav;
+        // If the method call without block nor keyword/block/splat/double splat arguments, gen OPT_SEND.
+        if flag.to_u8() == 0 {
+            self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_res, loc);
+        } else {
+            self.emit_send(globals, iseq, method, args_num, flag, block_ref, loc);
+            if !use_res {
+                iseq.gen_pop()
+            };
+        }
+        if let Some(src) = src {
+            iseq.write_disp_from_cur(src);
+            if !use_value {
+                iseq.gen_pop()
+            };
+        }
+
+        Ok(())
+    }
+
+    /// Push arguments. Returns the number of positional arguments, flags, and a block literal.
+    pub(crate) fn gen_args(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        arglist: ArgList,
+    ) -> Result<(usize, ArgFlag, Option<FnId>), RubyError> {
         let delegate_flag = arglist.delegate;
         let hash_len = arglist.hash_splat.len();
         // push positional args.
@@ -54,28 +90,8 @@ impl Codegen {
             iseq.gen_create_array(hash_len);
         }
         let (block_ref, block_flag) = self.get_block(globals, iseq, arglist.block)?;
-        // If the method call without block nor keyword/block/splat/double splat arguments, gen OPT_SEND.
-        if !block_flag && !kw_flag && !splat_flag && hash_len == 0 && !delegate_flag {
-            if safe_nav {
-                iseq.gen_dup(1);
-                iseq.gen_push_nil();
-                iseq.push(Inst::NE);
-                let src = iseq.gen_jmp_if_f();
-                self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
-                iseq.write_disp_from_cur(src);
-            } else {
-                self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
-            }
-        } else {
-            let flag = ArgFlag::new(kw_flag, block_flag, delegate_flag, hash_len > 0, splat_flag);
-            self.emit_send(globals, iseq, method, args_num, flag, block_ref, loc);
-
-            if !use_value {
-                iseq.gen_pop()
-            };
-        }
-
-        Ok(())
+        let flag = ArgFlag::new(kw_flag, block_flag, delegate_flag, hash_len > 0, splat_flag);
+        Ok((args_num, flag, block_ref))
     }
 
     pub(crate) fn gen_send_with_splat(
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 6c9ffe2..9d20451 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -189,17 +189,10 @@ impl Globals {
     }
 
     pub(crate) fn kind_of(&self, val: Value, class: Value) -> bool {
-        let mut val = self.get_class(val);
-        loop {
-            if val.id() == class.id() {
-                return true;
-            }
-            val = match val.upper() {
-                Some(val) => val,
-                None => break,
-            };
+        match class.if_mod_class() {
+            Some(class) => self.get_class_for_method(val).include_module(class),
+            None => false,
         }
-        false
     }
 
     pub(crate) fn add_source_file(&mut self, file_path: &Path) -> Option<usize> {
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index f468114..7ddb43f 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -120,6 +120,31 @@ impl MethodRepo {
             None => None,
         }
     }
+
+    /// Get the method which `super` in the method `iseq` refers to.
+    ///
+    /// The search starts behind the class or module of the ancestors of `rec_class` which has `iseq`.
+    pub(crate) fn find_super_method(
+        &self,
+        rec_class: Module,
+        iseq: ISeqRef,
+        method_name: IdentId,
+    ) -> Option<FnId> {
+        let mut found = false;
+        for module in rec_class.resolution_order() {
+            if found {
+                if let Some(fid) = module.search_method_no_inherit(method_name) {
+                    return Some(fid);
+                }
+            } else {
+                found = module.methods().any(|fid| match &self[*fid] {
+                    MethodInfo::RubyFunc { iseq: i } => *i == iseq,
+                    _ => false,
+                });
+            }
+        }
+        None
+    }
 }
 
 #[cfg(feature = "perf-method")]
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 7ed55b9..5fe641d 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -132,18 +132,9 @@ impl Module {
 
     /// Check whether `target_module` exists in the ancestors of `self`.
     pub(crate) fn include_module(&self, target_module: Module) -> bool {
-        let mut module = *self;
-        loop {
-            let true_module = module.real_module();
-            if true_module.id() == target_module.id() {
-                return true;
-            };
-            match module.upper() {
-                Some(upper) => module = upper,
-                None => break,
-            }
-        }
-        false
+        self.ancestors()
+            .iter()
+            .any(|module| module.real_module().id() == target_module.id())
     }
 
     /// Get singleton class of `self`.
@@ -189,26 +180,37 @@ impl Module {
     /// Get method for a receiver which class is `self` and `method` (IdentId) without using method cache.
     /// Returns `FnId` and its owner `Module`.
     pub(crate) fn search_method(&self, method: IdentId) -> Option<DefinedMethod> {
-        let mut class = *self;
-        let mut singleton_flag = self.is_singleton();
-        loop {
-            match class.get_instance_method(method) {
-                Some(method) => {
-                    return Some(DefinedMethod::new(method, class));
-                }
-                None => match class.upper() {
-                    Some(superclass) => class = superclass,
-                    None => {
-                        if singleton_flag {
-                            singleton_flag = false;
-                            class = self.class();
-                        } else {
-                            return None;
-                        }
-                    }
-                },
-            };
+        self.resolution_order().into_iter().find_map(|class| {
+            let fid = class.get_instance_method(method)?;
+            Some(DefinedMethod::new(fid, class.real_module()))
+        })
+    }
+
+    /// All classes and modules in which a method for an instance of `self` is searched, in order.
+    pub(crate) fn resolution_order(&self) -> Vec<Module> {
+        let mut v = self.ancestors();
+        if self.is_singleton() && v.last().map_or(true, |m| m.upper().is_none()) {
+            v.extend(self.class().ancestors());
+        }
+        v
+    }
+
+    /// All classes and modules (as an included one) above `self`, including `self`.
+    pub(crate) fn ancestors(&self) -> Vec<Module> {
+        let mut v = vec![];
+        let mut module = Some(*self);
+        // When some modules were prepended to `self`, start from them.
+        while let Some(m) = module {
+            if !m.has_prepend() {
+                break;
+            }
+            module = m.next_module();
+        }
+        while let Some(m) = module {
+            v.push(m);
+            module = m.upper();
         }
+        v
     }
 
     pub(crate) fn search_method_no_inherit(&self, method: IdentId) -> Option<FnId> {
@@ -476,62 +478,110 @@ impl ClassInfo {
         self.ext.origin = Some(origin);
     }
 
+    /// Get the next entry of the ancestor chain, no matter whether it is to be searched.
+    fn next_module(&self) -> Option<Module> {
+        self.upper
+    }
+
     pub(crate) fn append_include(&mut self, globals: &mut Globals, module: Module) {
         self.append_include_without_increment_version(module);
         globals.methods.inc_class_version();
     }
 
-    pub(crate) fn append_include_without_increment_version(&mut self, mut module: Module) {
-        let superclass = self.upper;
-        let mut imodule = module.generate_included();
-        self.upper = Some(imodule);
-        loop {
-            module = match module.upper() {
-                Some(module) => module,
-                None => break,
-            };
-            let mut prev = imodule;
-            imodule = module.generate_included();
-            prev.upper = Some(imodule);
-        }
-        imodule.upper = superclass;
+    pub(crate) fn append_include_without_increment_version(&mut self, module: Module) {
+        // Included modules are placed behind `self`, which is behind prepended ones.
+        let origin = if self.has_prepend() {
+            self.find_origin()
+        } else {
+            None
+        };
+        self.insert_modules(origin, module, true);
     }
 
-    pub(crate) fn append_prepend(
-        &mut self,
-        globals: &mut Globals,
-        base: Module,
-        mut module: Module,
-    ) {
-        let superclass = self.upper;
-        let mut imodule = module.generate_included();
-        self.upper = Some(imodule);
-        loop {
-            module = match module.upper() {
-                Some(module) => module,
-                None => break,
-            };
-            let mut prev = imodule;
-            imodule = module.generate_included();
-            prev.upper = Some(imodule);
-        }
+    pub(crate) fn append_prepend(&mut self, globals: &mut Globals, base: Module, module: Module) {
         if !self.has_prepend() {
             let mut dummy = base.dup();
-            dummy.upper = superclass;
+            dummy.upper = self.upper;
             dummy.set_include(base);
-            imodule.upper = Some(dummy);
+            self.upper = Some(dummy);
             self.set_prepend();
-        } else {
-            imodule.upper = superclass;
         }
+        self.insert_modules(None, module, false);
         globals.methods.inc_class_version();
     }
 
+    /// Find an entry which represents `self` itself in the ancestor chain of the class with prepended modules.
+    fn find_origin(&self) -> Option<Module> {
+        let mut module = self.upper;
+        while let Some(m) = module {
+            if m.ext.id() == self.ext.id() {
+                return Some(m);
+            }
+            module = m.upper;
+        }
+        None
+    }
+
+    /// Insert `module` and all modules included in it behind `pos` (behind `self` when `pos` is None).
+    ///
+    /// Modules which are already in the ancestor chain are not inserted again.
+    /// `search_super`: true when including, false when prepending.
+    fn insert_modules(&mut self, mut pos: Option<Module>, module: Module, search_super: bool) {
+        let self_id = self.ext.id();
+        for m in module.ancestors() {
+            let mut superclass_seen = false;
+            let mut pos_seen = pos.is_none();
+            let mut existing = None;
+            let mut entry = self.upper;
+            while let Some(e) = entry {
+                if !search_super && e.ext.id() == self_id {
+                    break;
+                }
+                if pos.map_or(false, |pos| Module::id(pos) == Module::id(e)) {
+                    pos_seen = true;
+                }
+                if !e.is_included() {
+                    superclass_seen = true;
+                } else if e.ext.id() == m.ext.id() {
+                    existing = Some(e);
+                    break;
+                }
+                entry = e.upper;
+            }
+            match existing {
+                Some(e) => {
+                    if !superclass_seen && pos_seen {
+                        pos = Some(e);
+                    }
+                }
+                None => {
+                    let mut imodule = m.generate_included();
+                    match pos {
+                        Some(mut pos) => {
+                            imodule.upper = pos.upper;
+                            pos.upper = Some(imodule);
+                        }
+                        None => {
+                            imodule.upper = self.upper;
+                            self.upper = Some(imodule);
+                        }
+                    }
+                    pos = Some(imodule);
+                }
+            }
+        }
+    }
+
     #[inline(always)]
     pub(crate) fn origin(&self) -> Option<Module> {
         self.ext.origin
     }
 
+    #[inline(always)]
+    pub(crate) fn methods(&self) -> indexmap::map::Values<'_, IdentId, FnId> {
+        self.ext.method_table.values()
+    }
+
     #[inline(always)]
     pub(crate) fn method_names(&self) -> indexmap::map::Keys<'_, IdentId, FnId> {
         self.ext.method_table.keys()
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 6096172..d90392b 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -478,6 +478,11 @@ impl VM {
         self.cur_mfp().block()
     }
 
+    /// Get local variables of current method frame.
+    pub(super) fn get_method_lfp(&self) -> LocalFrame {
+        self.cur_mfp().get_lfp()
+    }
+
     pub(super) fn get_method_iseq(&self) -> ISeqRef {
         self.cur_mfp().iseq()
     }
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index c34bc03..71522c3 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -367,7 +367,8 @@ impl VM {
         {
             Some(method) => {
                 let len = args.len();
-                let new_args = Args2::new(len + 1);
+                let mut new_args = Args2::new_with_block(len + 1, args.block.clone());
+                new_args.kw_arg = args.kw_arg;
                 self.stack
                     .insert(self.sp() - len, Value::symbol(method_name));
                 self.invoke_method(method, &new_args, use_value)
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index f5bb2e3..b50ddf4 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -476,10 +476,10 @@ impl VM {
                     }
                     Inst::SUPER => {
                         let args_num = self.pc.read16() as usize;
-                        let _block = self.pc.read_method();
-                        let flag = self.pc.read8() == 1;
-                        //let self_value = self.self_value();
-                        dispatch!(self.vm_super(self_val, args_num, flag), true);
+                        let block = self.pc.read32();
+                        let no_args = self.pc.read8() == 1;
+                        let flag = self.pc.read_argflag();
+                        dispatch!(self.vm_super(self_val, args_num, block, no_args, flag), true);
                     }
                     Inst::DEF_CLASS => {
                         let is_module = self.pc.read8() == 1;
@@ -728,36 +728,100 @@ impl VM {
         &mut self,
         self_value: Value,
         args_num: usize,
-        delegate_flag: bool,
+        block: u32,
+        no_args: bool,
+        flag: ArgFlag,
     ) -> InvokeResult {
-        // TODO: support keyword parameter, etc..
         let iseq = self.get_method_iseq();
-        if let ISeqKind::Method(Some(m_id)) = iseq.kind {
-            let class = self.globals.get_class_for_method(self_value);
-            let method = class
-                .superclass()
-                .map(|class| self.globals.methods.find_method(class, m_id))
-                .flatten()
-                .ok_or_else(|| {
-                    RubyError::nomethod(format!(
-                        "no superclass method `{:?}' for {:?}.",
-                        m_id, self_value
-                    ))
-                })?;
-            let args = if delegate_flag {
-                // When `super` has no arguments, use arguments which were passed to the current method.
-                let param_num = iseq.params.param_ident.len();
-                for i in 0..param_num as isize {
-                    self.stack_push(self.lfp[i]);
-                }
-                Args2::new(args_num + param_num)
-            } else {
+        let m_id = match iseq.kind {
+            ISeqKind::Method(Some(m_id)) => m_id,
+            _ => return Err(RubyError::nomethod("super called outside of method")),
+        };
+        let class = self.globals.get_class_for_method(self_value);
+        let method = self
+            .globals
+            .methods
+            .find_super_method(class, iseq, m_id)
+            .ok_or_else(|| {
+                RubyError::nomethod(format!(
+                    "no superclass method `{:?}' for {:?}.",
+                    m_id, self_value
+                ))
+            })?;
+        let mut args = if no_args {
+            // When `super` has no arguments, use arguments which were passed to the current method.
+            self.push_method_args(iseq)
+        } else {
+            let block = self.handle_block_arg(block, flag)?;
+            let keyword = self.handle_hash_args(flag)?;
+            let mut args = if flag.has_splat() {
                 self.pop_args_to_args(args_num)
+            } else {
+                Args2::new(args_num)
             };
-            self.invoke_method(method, &args, true)
-        } else {
-            Err(RubyError::nomethod("super called outside of method"))
+            if flag.has_delegate() {
+                if let Some(v) = self.cur_delegate() {
+                    let ary = &**v.as_array().expect("Delegate arg must be Array or nil.");
+                    args.append(ary);
+                    self.stack.extend_from_slice(ary);
+                }
+            }
+            args.block = block;
+            args.kw_arg = keyword;
+            args
+        };
+        if args.block.is_none() && !flag.has_block_arg() {
+            args.block = self.get_method_block();
+        }
+        self.invoke_method(method, &args, true)
+    }
+
+    /// Push the current values of the parameters of the current method.
+    fn push_method_args(&mut self, iseq: ISeqRef) -> Args2 {
+        let lfp = self.get_method_lfp();
+        let params = &iseq.params;
+        let mut vals = vec![];
+        let mut pos = 0;
+        for _ in 0..params.req + params.opt {
+            vals.push(lfp[pos]);
+            pos += 1;
+        }
+        if params.rest == Some(true) {
+            if let Some(ary) = lfp[pos].as_array() {
+                vals.extend_from_slice(&ary);
+            }
+            pos += 1;
+        }
+        for _ in 0..params.post {
+            vals.push(lfp[pos]);
+            pos += 1;
+        }
+        if let Some(lvar) = params.delegate {
+            if let Some(ary) = lfp[lvar].as_array() {
+                vals.extend_from_slice(&ary);
+            }
+        }
+        let mut kw = FxIndexMap::default();
+        for id in &params.param_ident {
+            if let Some(lvar) = params.keyword.get(id) {
+                kw.insert(HashKey(Value::symbol(*id)), lfp[*lvar]);
+            }
+        }
+        if let Some(lvar) = iseq.lvar.kwrest_param() {
+            if let Some(hash) = lfp[lvar].as_hash() {
+                for (k, v) in hash.iter() {
+                    kw.insert(HashKey(k), v);
+                }
+            }
+        }
+        for val in &vals {
+            self.stack_push(*val);
+        }
+        let mut args = Args2::new(vals.len());
+        if !kw.is_empty() {
+            args.kw_arg = Value::hash_from_map(kw);
         }
+        args
     }
 
     /// Invoke the block given to the method with `args`.
-- 
2.43.0


From e86a3a6add0aa95e4440df248574116e4965b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 23/57] fix: super calls method_missing, and works in aliased
 methods

---
 ruruby/src/globals/method.rs       | 30 ++++++++++++++++--------------
 ruruby/src/vm/executor/opt_core.rs | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 7ddb43f..6ac9ad9 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -130,20 +130,22 @@ impl MethodRepo {
         iseq: ISeqRef,
         method_name: IdentId,
     ) -> Option<FnId> {
-        let mut found = false;
-        for module in rec_class.resolution_order() {
-            if found {
-                if let Some(fid) = module.search_method_no_inherit(method_name) {
-                    return Some(fid);
-                }
-            } else {
-                found = module.methods().any(|fid| match &self[*fid] {
-                    MethodInfo::RubyFunc { iseq: i } => *i == iseq,
-                    _ => false,
-                });
-            }
-        }
-        None
+        let is_iseq = |fid: &FnId| match &self[*fid] {
+            MethodInfo::RubyFunc { iseq: i } => *i == iseq,
+            _ => false,
+        };
+        let modules = rec_class.resolution_order();
+        let owner = modules
+            .iter()
+            .position(|module| match module.search_method_no_inherit(method_name) {
+                Some(fid) => is_iseq(&fid),
+                None => false,
+            })
+            // the method was redefined, and is called by an alias.
+            .or_else(|| modules.iter().position(|m| m.methods().any(is_iseq)))?;
+        modules[owner + 1..]
+            .iter()
+            .find_map(|module| module.search_method_no_inherit(method_name))
     }
 }
 
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index b50ddf4..ac5353a 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -737,17 +737,6 @@ impl VM {
             ISeqKind::Method(Some(m_id)) => m_id,
             _ => return Err(RubyError::nomethod("super called outside of method")),
         };
-        let class = self.globals.get_class_for_method(self_value);
-        let method = self
-            .globals
-            .methods
-            .find_super_method(class, iseq, m_id)
-            .ok_or_else(|| {
-                RubyError::nomethod(format!(
-                    "no superclass method `{:?}' for {:?}.",
-                    m_id, self_value
-                ))
-            })?;
         let mut args = if no_args {
             // When `super` has no arguments, use arguments which were passed to the current method.
             self.push_method_args(iseq)
@@ -773,7 +762,22 @@ impl VM {
         if args.block.is_none() && !flag.has_block_arg() {
             args.block = self.get_method_block();
         }
-        self.invoke_method(method, &args, true)
+        let class = self.globals.get_class_for_method(self_value);
+        match self.globals.methods.find_super_method(class, iseq, m_id) {
+            Some(method) => self.invoke_method(method, &args, true),
+            None if self
+                .globals
+                .methods
+                .find_method(class, IdentId::_METHOD_MISSING)
+                .is_some() =>
+            {
+                self.invoke_method_missing(m_id, &args, true)
+            }
+            None => Err(RubyError::nomethod(format!(
+                "no superclass method `{:?}' for {:?}.",
+                m_id, self_value
+            ))),
+        }
     }
 
     /// Push the current values of the parameters of the current method.
-- 
2.43.0


From 33cdace2d70184cc2ce7235bd87290afeac73878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 24/57] fix: arguments: lambda arity, missing and surplus block
 arguments, keywords of yield, splats and required keywords

---
 ruruby-common/src/lvar_collector.rs         |  18 +++
 ruruby-parse/src/node.rs                    |  17 +++
 ruruby-parse/src/parser.rs                  |  19 +++-
 ruruby-parse/src/parser/expression.rs       |  10 +-
 ruruby/src/codegen.rs                       |  27 +++--
 ruruby/src/globals.rs                       |   2 +-
 ruruby/src/globals/method.rs                |  11 +-
 ruruby/src/vm/executor.rs                   | 120 ++++++--------------
 ruruby/src/vm/executor/frame/arg_handler.rs |  54 +++++++--
 ruruby/src/vm/executor/method.rs            |   8 +-
 ruruby/src/vm/executor/opt_core.rs          |  18 ++-
 11 files changed, 185 insertions(+), 119 deletions(-)

diff --git a/ruruby-common/src/lvar_collector.rs b/ruruby-common/src/lvar_collector.rs
index ad1b618..648c573 100644
--- a/ruruby-common/src/lvar_collector.rs
+++ b/ruruby-common/src/lvar_collector.rs
@@ -125,6 +125,24 @@ impl LvarCollector {
         Some(lvar)
     }
 
+    /// Move the parameters `params` to the head of the table, in this order.
+    pub fn arrange_params(&mut self, params: &[IdentId]) {
+        let old = std::mem::replace(&mut self.table, LvarTable::new());
+        params.iter().for_each(|id| self.table.push(*id));
+        for id in old.iter() {
+            self.insert(*id);
+        }
+        let new_id = |lvar: &mut LvarId| {
+            if let Some(id) = old.get(lvar.as_usize()) {
+                *lvar = self.table.get_lvarid(id).unwrap();
+            }
+        };
+        self.kw.iter_mut().for_each(new_id);
+        self.kwrest.iter_mut().for_each(new_id);
+        self.block.iter_mut().for_each(new_id);
+        self.delegate_param.iter_mut().for_each(new_id);
+    }
+
     fn get_name_id(&self, id: LvarId) -> Option<IdentId> {
         self.table.get(id.into())
     }
diff --git a/ruruby-parse/src/node.rs b/ruruby-parse/src/node.rs
index 4dce9d5..bfba10e 100644
--- a/ruruby-parse/src/node.rs
+++ b/ruruby-parse/src/node.rs
@@ -134,6 +134,23 @@ impl BlockInfo {
 
 pub type FormalParam = Annot<ParamKind>;
 
+impl ParamKind {
+    /// The local variable of the parameter, if any.
+    pub(crate) fn ident(&self) -> Option<IdentId> {
+        match self {
+            Self::Param(id)
+            | Self::Post(id)
+            | Self::Optional(id, _)
+            | Self::Rest(id)
+            | Self::Keyword(id, _)
+            | Self::KWRest(id)
+            | Self::Block(id) => Some(*id),
+            Self::RestDiscard => None,
+            Self::Delegate => Some(IdentId::get_id("...")),
+        }
+    }
+}
+
 impl FormalParam {
     pub(crate) fn req_param(id: IdentId, loc: Loc) -> Self {
         FormalParam::new(ParamKind::Param(id), loc)
diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 4413d50..769e977 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -467,6 +467,16 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         Ok(())
     }
 
+    /// Parse a default value of a parameter.
+    /// Between `|`s, a `|` does not belong to the value.
+    fn parse_default_value(&mut self, terminator: Option<Punct>) -> Result<Node, ParseErr> {
+        if terminator == Some(Punct::BitOr) {
+            self.parse_arg_bitand()
+        } else {
+            self.parse_arg()
+        }
+    }
+
     /// Parse formal parameters.
     /// required, optional = defaule, *rest, post_required, kw: default, **rest_kw, &block
     fn parse_formal_params(
@@ -548,7 +558,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let id = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
-                    let default = self.parse_arg()?;
+                    let default = self.parse_default_value(terminator)?;
                     loc = loc.merge(self.prev_loc());
                     match state {
                         Kind::Required => state = Kind::Optional,
@@ -572,10 +582,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_arg()?)
+                                Some(self.parse_default_value(Some(term))?)
                             }
                         } else {
-                            Some(self.parse_arg()?)
+                            Some(self.parse_default_value(None)?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
@@ -615,6 +625,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 break;
             }
         }
+        // The default values may have introduced local variables in between.
+        let params: Vec<_> = args.iter().filter_map(|arg| arg.kind.ident()).collect();
+        self.context_mut().lvar.arrange_params(&params);
         if let Some(term) = terminator {
             self.expect_punct(term)?;
         }
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 02c18e4..05f9be3 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -345,7 +345,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         Ok(lhs)
     }
 
-    fn parse_arg_bitand(&mut self) -> Result<Node, ParseErr> {
+    pub(super) fn parse_arg_bitand(&mut self) -> Result<Node, ParseErr> {
         let mut lhs = self.parse_arg_shift()?;
         loop {
             if self.consume_punct_no_term(Punct::BitAnd)? {
@@ -845,7 +845,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 arglist.hash_splat.push(self.parse_arg()?);
             } else if self.consume_punct(Punct::BitAnd)? {
                 // block argument
-                arglist.block = Some(Box::new(self.parse_arg()?));
+                let mut node = self.parse_arg()?;
+                if let NodeKind::Lambda(_) = node.kind {
+                    // A lambda is a value, unlike a block.
+                    let loc = node.loc();
+                    node = Node::new_comp_stmt(vec![node], loc);
+                }
+                arglist.block = Some(Box::new(node));
             } else {
                 let node = self.parse_arg()?;
                 let loc = node.loc();
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 3e40370..3828491 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -264,7 +264,7 @@ impl Codegen {
 
         self.context_stack
             .push(Context::from(lvar_collector.table.clone(), kind));
-        for (lvar_id, param) in param_list.into_iter().enumerate() {
+        for param in param_list.into_iter() {
             match param.kind {
                 ParamKind::Param(id) => {
                     params.param_ident.push(id);
@@ -288,9 +288,13 @@ impl Codegen {
                 }
                 ParamKind::Keyword(id, default) => {
                     params.param_ident.push(id);
-                    params.keyword.insert(id, lvar_id.into());
-                    if let Some(default) = default {
-                        self.gen_default_expr(globals, &mut iseq, id, *default)?
+                    let lvar_id = lvar_collector.table.get_lvarid(id).unwrap();
+                    params.keyword.insert(id, lvar_id);
+                    match default {
+                        Some(default) => {
+                            self.gen_default_expr(globals, &mut iseq, id, *default)?
+                        }
+                        None => params.required_keyword.push(id),
                     }
                 }
                 ParamKind::KWRest(id) => {
@@ -1465,11 +1469,8 @@ impl Codegen {
                 globals, iseq, *receiver, method, arglist, safe_nav, use_value, node_loc,
             )?,
             NodeKind::Yield(arglist) => {
-                let len = arglist.args.len();
-                for arg in arglist.args {
-                    self.gen(globals, iseq, arg, true)?;
-                }
-                self.emit_yield(iseq, len);
+                let (args_num, flag, _) = self.gen_args(globals, iseq, arglist)?;
+                self.emit_yield(iseq, args_num, flag);
                 if !use_value {
                     iseq.gen_pop();
                 };
@@ -1662,6 +1663,8 @@ impl Codegen {
                     node.loc,
                 )?;
                 self.loop_stack.pop().unwrap();
+                // `->` makes a lambda.
+                globals.methods[method].as_iseq().kind = ISeqKind::Method(None);
                 iseq.push(Inst::CREATE_PROC);
                 iseq.push32(method.into());
                 if !use_value {
@@ -1700,9 +1703,11 @@ impl Codegen {
         self.save_loc(iseq, loc);
     }
 
-    fn emit_yield(&mut self, iseq: &mut ISeq, args_num: usize) {
+    fn emit_yield(&mut self, iseq: &mut ISeq, args_num: usize, flag: ArgFlag) {
         iseq.push(Inst::YIELD);
-        iseq.push32(args_num as u32);
+        iseq.push16(args_num as u16);
+        iseq.push_argflag(flag);
+        iseq.push(0);
         self.save_cur_loc(iseq);
     }
 
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 9d20451..36318a3 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -442,12 +442,12 @@ impl Globals {
             | Inst::SINKN
             | Inst::TOPN
             | Inst::CONCAT_STRING
-            | Inst::YIELD
             | Inst::RESCUE => format!(
                 "{} {} items",
                 Inst::inst_name(iseq[pc]),
                 iseq.read32(pc + 1)
             ),
+            Inst::YIELD => format!("YIELD {} items", iseq.read16(pc + 1)),
             Inst::CONST_VAL => {
                 let id = iseq.read32(pc + 1);
                 format!("CONST_VAL {:?}", self.const_values.get(id as usize))
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 6ac9ad9..1bf8678 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -392,6 +392,8 @@ pub struct ISeqParams {
     pub post: usize,
     pub block: bool,
     pub keyword: FxHashMap<IdentId, LvarId>,
+    /// Keyword parameters without a default value.
+    pub required_keyword: Vec<IdentId>,
     pub kwrest: bool,
     /// A flag for argument delegation. e.g. f(...)
     pub delegate: Option<LvarId>,
@@ -517,7 +519,8 @@ impl ISeqInfo {
     ) -> Self {
         let lvars = lvar.len();
         let opt_flag = params.is_opt();
-        let mularg_flag = 1 < params.req + params.post;
+        let positional = params.req + params.opt + params.post;
+        let mularg_flag = positional > 1 || positional == 1 && params.rest.is_some();
         ISeqInfo {
             method,
             params,
@@ -553,6 +556,7 @@ impl ISeqInfo {
                 post: 0,
                 block: false,
                 keyword: FxHashMap::default(),
+                required_keyword: vec![],
                 kwrest: false,
                 delegate: None,
             },
@@ -581,6 +585,11 @@ impl ISeqInfo {
         !self.is_block()
     }
 
+    /// Whether the arguments must fit the parameters when called as a block.
+    pub(crate) fn is_lambda(&self) -> bool {
+        matches!(self.kind, ISeqKind::Method(_))
+    }
+
     pub(crate) fn is_classdef(&self) -> bool {
         match self.kind {
             ISeqKind::Class(_) => true,
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index a5088e6..1878b5e 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -954,98 +954,52 @@ impl VM {
     }
 
     /// Pop values and store them in new `Args`. `args_num` specifies the number of values to be popped.
-    /// If there is some Array or Range with splat operator, break up the value and store each of them.
-    fn pop_args_to_args(&mut self, arg_num: usize) -> Args2 {
+    /// If there is some Array, Hash, Range or nil with splat operator, break up the value and store each of them.
+    fn pop_args_to_args(&mut self, arg_num: usize) -> Result<Args2, RubyError> {
         let arg_start = self.stack.sp - arg_num;
-        let mut p = arg_start;
-        while p < self.stack.sp {
-            let prev_sp = self.stack.sp;
-            let val = p[0];
-            match val.as_splat() {
-                Some(inner) => match inner.as_rvalue() {
-                    None => {
-                        p[0] = inner;
-                        p += 1;
-                    }
-                    Some(obj) => match obj.kind() {
-                        ObjKind::ARRAY => {
-                            let a = &**obj.array();
-                            let ary_len = a.len();
-                            if ary_len == 0 {
-                                self.stack.remove(p);
-                            } else {
-                                self.stack.grow(ary_len - 1);
-                                RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
-                                p[0..ary_len].copy_from_slice(&a[..]);
-                                p += ary_len;
-                            }
-                        }
-                        // TODO: should use `to_a` method.
-                        ObjKind::RANGE => {
-                            let r = &*obj.range();
-                            let start = r.start.coerce_to_fixnum("Expect Integer.").unwrap();
-                            let end = r.end.coerce_to_fixnum("Expect Integer.").unwrap()
-                                + if r.exclude { 0 } else { 1 };
-                            if end >= start {
-                                let ary_len = (end - start) as usize;
-                                self.stack.grow(ary_len - 1);
-                                RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
-                                for (idx, val) in (start..end).enumerate() {
-                                    p[idx as isize] = Value::integer(val);
-                                }
-                                p += ary_len;
-                            } else {
-                                self.stack.remove(p);
-                            };
-                        }
-                        _ => {
-                            p[0] = inner;
-                            p += 1;
-                        }
-                    },
-                },
-                None => p += 1,
-            };
+        if (0..arg_num).any(|i| arg_start[i as isize].as_splat().is_some()) {
+            let args = self.expand_splat(arg_num)?;
+            self.stack.sp = arg_start;
+            self.stack.extend_from_slice(&args);
         }
         let len = (self.stack.sp - arg_start) as usize;
-        Args2::new(len)
+        Ok(Args2::new(len))
     }
 
-    fn pop_args_to_array(&mut self, arg_num: usize) -> Value {
-        let v = Value::array_empty();
-        let mut ary = v.as_array().unwrap();
-        let end = self.stack.sp;
-        let mut p = end - arg_num;
-        self.stack.sp = p;
-        while p < end {
-            let val = p[0];
-            match val.as_splat() {
-                Some(inner) => match inner.as_rvalue() {
-                    None => ary.push(inner),
-                    Some(obj) => match obj.kind() {
-                        ObjKind::ARRAY => ary.extend_from_slice(&**obj.array()),
-                        // TODO: should use `to_a` method.
-                        ObjKind::RANGE => {
-                            let r = &*obj.range();
-                            let start = r.start.coerce_to_fixnum("Expect Integer.").unwrap();
-                            let end = r.end.coerce_to_fixnum("Expect Integer.").unwrap()
-                                + if r.exclude { 0 } else { 1 };
-                            if end >= start {
-                                for val in start..end {
-                                    ary.push(Value::integer(val));
-                                }
-                            }
-                        }
-                        _ => ary.push(inner),
-                    },
-                },
+    fn pop_args_to_array(&mut self, arg_num: usize) -> VMResult {
+        let args = self.expand_splat(arg_num)?;
+        self.stack.sp = self.stack.sp - arg_num;
+        Ok(Value::array_from(args))
+    }
+
+    /// Get the topmost `arg_num` values of the stack, the ones with splat operator broken up.
+    fn expand_splat(&mut self, arg_num: usize) -> Result<Vec<Value>, RubyError> {
+        let start = self.stack.sp - arg_num;
+        let mut vec = vec![];
+        for i in 0..arg_num {
+            let val = start[i as isize];
+            let inner = match val.as_splat() {
+                Some(inner) => inner,
                 None => {
-                    ary.push(val);
+                    vec.push(val);
+                    continue;
                 }
             };
-            p += 1;
+            // TODO: should use `to_a` method.
+            if let Some(ary) = inner.as_array() {
+                vec.extend_from_slice(&**ary);
+            } else if let Some(hash) = inner.as_hash() {
+                vec.extend(hash.iter().map(|(k, v)| Value::array_from(vec![k, v])));
+            } else if let Some(r) = inner.as_range() {
+                let start = r.start.coerce_to_fixnum("Expect Integer.")?;
+                let end = r.end.coerce_to_fixnum("Expect Integer.")?;
+                let end = if r.exclude { end } else { end + 1 };
+                vec.extend((start..end).map(Value::integer));
+            } else if !inner.is_nil() {
+                vec.push(inner);
+            }
         }
-        v
+        Ok(vec)
     }
 
     pub(crate) fn create_range(&mut self, start: Value, end: Value, exclude_end: bool) -> VMResult {
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index e5c8532..18c08a2 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -13,7 +13,7 @@ impl VM {
         let base = self.sp() - args.len();
         let params = &iseq.params;
         let kw_flag = !args.kw_arg.is_nil();
-        let (_positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty() && !params.kwrest {
+        let (positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty() && !params.kwrest {
             // Note that Ruby 3.0 doesn’t behave differently when calling a method which doesn’t accept keyword
             // arguments with keyword arguments.
             // For instance, the following case is not going to be deprecated and will keep working in Ruby 3.0.
@@ -33,10 +33,26 @@ impl VM {
             (false, kw_flag)
         };
 
-        self.prepare_block_args(base, iseq);
+        if iseq.is_lambda() {
+            params.check_arity(positional_kwarg, args)?;
+        } else {
+            self.prepare_block_args(base, iseq);
+            // Surplus arguments are dropped.
+            let max = params.req + params.opt + params.post;
+            if params.rest.is_none()
+                && params.delegate.is_none()
+                && max < (self.sp() - base) as usize
+            {
+                self.stack.sp = base + max;
+            }
+        }
+        // Missing arguments of the required parameters are nil.
+        while ((self.sp() - base) as usize) < params.req + params.post {
+            self.stack_push(Value::nil());
+        }
         self.fill_positional_arguments(base, iseq);
         // Handling keyword arguments and a keyword rest paramter.
-        if params.kwrest || ordinary_kwarg {
+        if params.kwrest || ordinary_kwarg || !params.required_keyword.is_empty() {
             self.fill_keyword_arguments(base, iseq, args.kw_arg, ordinary_kwarg)?;
         };
         let local_len = (self.sp() - base) as usize;
@@ -88,7 +104,7 @@ impl VM {
         params.check_arity(positional_kwarg, args)?;
         self.fill_positional_arguments(base_ptr, iseq);
         // Handling keyword arguments and a keyword rest paramter.
-        if params.kwrest || ordinary_kwarg {
+        if params.kwrest || ordinary_kwarg || !params.required_keyword.is_empty() {
             self.fill_keyword_arguments(base_ptr, iseq, args.kw_arg, ordinary_kwarg)?;
         };
         let local_len = (self.sp() - base_ptr) as usize;
@@ -107,14 +123,23 @@ impl VM {
         args: &Args2,
         outer: EnvFrame,
         use_value: bool,
-    ) {
+    ) -> Result<(), RubyError> {
         // This is necessary to follow moving outer frame to heap during iteration.
         let outer = outer.ep();
         let base = self.sp() - args.len();
         let lvars = iseq.lvars;
-        self.prepare_block_args(base, iseq);
+        if !args.kw_arg.is_nil() {
+            // No keyword parameters: the keywords are a positional Hash.
+            self.stack_push(args.kw_arg);
+        }
+        if !iseq.is_lambda() {
+            self.prepare_block_args(base, iseq);
+        }
         let args_len = (self.sp() - base) as usize;
         let req_len = iseq.params.req;
+        if iseq.is_lambda() && req_len != args_len {
+            return Err(RubyError::argument_wrong(args_len, req_len));
+        }
         if req_len < args_len {
             self.stack.sp = base + req_len;
         }
@@ -131,6 +156,7 @@ impl VM {
             local_len,
             base.as_lfp(),
         );
+        Ok(())
     }
 
     pub(crate) fn push_method_frame_fast(
@@ -140,7 +166,12 @@ impl VM {
         use_value: bool,
     ) -> InvokeResult {
         let min = iseq.params.req;
-        let len = args.len();
+        let mut len = args.len();
+        if !args.kw_arg.is_nil() && len < min {
+            // No keyword parameters: the keywords are a positional Hash.
+            self.stack_push(args.kw_arg);
+            len += 1;
+        }
         if len != min {
             return Err(RubyError::argument_wrong(len, min));
         }
@@ -225,8 +256,7 @@ impl VM {
         if ordinary_kwarg {
             let keyword = kw_arg.as_hash().unwrap();
             for (k, v) in keyword.iter() {
-                let id = k.as_symbol().unwrap();
-                match iseq.params.keyword.get(&id) {
+                match k.as_symbol().and_then(|id| iseq.params.keyword.get(&id)) {
                     Some(lvar) => base[lvar.as_usize() as isize] = v,
                     None => {
                         if iseq.params.kwrest {
@@ -238,6 +268,12 @@ impl VM {
                 };
             }
         };
+        for id in &iseq.params.required_keyword {
+            let lvar = iseq.params.keyword[id];
+            if base[lvar.as_usize() as isize].is_uninitialized() {
+                return Err(RubyError::argument(format!("Missing keyword: {:?}", id)));
+            }
+        }
         if let Some(id) = iseq.lvar.kwrest_param() {
             base[id.as_usize() as isize] = Value::hash_from_map(kwrest);
         }
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 71522c3..e658b23 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -119,7 +119,7 @@ impl VM {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
-                        self.push_block_frame_fast(iseq, &args, outer, false);
+                        self.push_block_frame_fast(iseq, &args, outer, false)?;
                         self.run_loop()?;
                     }
                 } else {
@@ -174,7 +174,7 @@ impl VM {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
-                        self.push_block_frame_fast(iseq, &args, outer, false);
+                        self.push_block_frame_fast(iseq, &args, outer, false)?;
                         let res = self.run_loop()?;
                         self.temp_push(res);
                     }
@@ -233,7 +233,7 @@ impl VM {
                     Box::new(move |vm: &mut VM, v: Value| -> VMResult {
                         vm.stack_push(self_value);
                         vm.stack_push(v);
-                        vm.push_block_frame_fast(iseq, &args, outer, false);
+                        vm.push_block_frame_fast(iseq, &args, outer, false)?;
                         vm.run_loop()
                     })
                 } else {
@@ -475,7 +475,7 @@ impl VM {
             RubyFunc { iseq } => {
                 let iseq = iseq.clone();
                 if iseq.opt_flag {
-                    self.push_block_frame_fast(iseq, args, outer, true);
+                    self.push_block_frame_fast(iseq, args, outer, true)?;
                 } else {
                     self.push_block_frame_slow(iseq, args, outer, true)?;
                 }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index ac5353a..c08d33a 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -379,7 +379,7 @@ impl VM {
                     }
                     Inst::CREATE_ARRAY => {
                         let arg_num = self.pc.read_usize();
-                        let array = self.pop_args_to_array(arg_num);
+                        let array = self.pop_args_to_array(arg_num)?;
                         self.stack_push(array);
                     }
                     Inst::CREATE_PROC => {
@@ -470,8 +470,12 @@ impl VM {
                     Inst::OPT_SEND => dispatch!(self.vm_fast_send(true), true),
                     Inst::OPT_SEND_N => dispatch!(self.vm_fast_send(false), false),
                     Inst::YIELD => {
-                        let args_num = self.pc.read32() as usize;
-                        let args = self.pop_args_to_args(args_num);
+                        let args_num = self.pc.read16() as usize;
+                        let flag = self.pc.read_argflag();
+                        let _ = self.pc.read8();
+                        let keyword = self.handle_hash_args(flag)?;
+                        let mut args = self.pop_args_to_args(args_num)?;
+                        args.kw_arg = keyword;
                         dispatch!(self.vm_yield(&args), true);
                     }
                     Inst::SUPER => {
@@ -606,6 +610,10 @@ impl VM {
                     }
                 }
             }
+            if hash.len() == 0 {
+                // Nothing but empty hash splats.
+                return Ok(Value::nil());
+            }
             Ok(kw)
         }
     }
@@ -689,7 +697,7 @@ impl VM {
         let keyword = self.handle_hash_args(flag)?;
         let receiver = (self.sp() - args_num - 1)[0];
         let mut args = if flag.has_splat() {
-            self.pop_args_to_args(args_num)
+            self.pop_args_to_args(args_num)?
         } else {
             Args2::new(args_num)
         };
@@ -744,7 +752,7 @@ impl VM {
             let block = self.handle_block_arg(block, flag)?;
             let keyword = self.handle_hash_args(flag)?;
             let mut args = if flag.has_splat() {
-                self.pop_args_to_args(args_num)
+                self.pop_args_to_args(args_num)?
             } else {
                 Args2::new(args_num)
             };
-- 
2.43.0


From 5913597c3c2c1c8bcb4f5afc52db8ec02caf6015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 25/57] fix: resuming a running fiber, fiber block arguments,
 dup and inspect of fibers and enumerators, objects of enumerators freed too
 early

---
 ruruby/src/builtin/enumerator.rs | 38 ++++++++++++++++----------------
 ruruby/src/builtin/fiber.rs      |  5 ++---
 ruruby/src/builtin/object.rs     | 15 ++++++++++++-
 ruruby/src/coroutine.rs          | 28 ++++++++++++++++++-----
 ruruby/src/coroutine/stack.rs    | 22 +++++++++++++-----
 5 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index 46d2a43..f0c8af8 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -52,18 +52,9 @@ fn inspect(vm: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
         _ => unreachable!(),
     };
 
-    let arg_string = {
-        match args.len() {
-            0 => "".to_string(),
-            1 => format!(" {:?}", vm[0]),
-            _ => {
-                let mut s = format!(" {:?}", vm[0]);
-                for i in 1..args.len() {
-                    s = format!("{},{:?}", s, args[i]);
-                }
-                s
-            }
-        }
+    let arg_string = match args.iter().map(|arg| vm.val_inspect(*arg)).collect::<Result<Vec<_>, _>>()? {
+        v if v.is_empty() => "".to_string(),
+        v => format!("({})", v.join(", ")),
     };
 
     let receiver_string = vm.val_inspect(receiver)?;
@@ -83,7 +74,7 @@ fn next(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     if eref.state == FiberState::Dead {
         return Err(RubyError::stop_iteration("Iteration reached an end."));
     };
-    match eref.resume(Value::nil()) {
+    match eref.resume(&[]) {
         Ok(val) => Ok(val),
         /*Err(err) if err.is_stop_iteration() => {
             return Err(RubyError::stop_iteration("Iteration reached an end."))
@@ -100,10 +91,13 @@ fn each(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         None => return Ok(self_val),
         Some(block) => block,
     };
-    let mut fiber = vm.dup_enum(eref);
+    // Keep the new fiber alive during the iteration.
+    let mut fiber = Value::enumerator(*vm.dup_enum(eref));
+    vm.temp_push(fiber);
+    let fiber = fiber.as_enumerator().unwrap();
     let f = vm.eval_block_map1(block);
     loop {
-        let val = match fiber.resume(Value::nil()) {
+        let val = match fiber.resume(&[]) {
             Ok(val) => val,
             Err(err) if err.is_stop_iteration() => break,
             Err(err) => return Err(err),
@@ -130,7 +124,6 @@ fn each(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
-    let mut info = vm.dup_enum(eref);
     let block = match &args.block {
         None => {
             // return Enumerator
@@ -140,10 +133,14 @@ fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
+    // Keep the new fiber alive during the iteration.
+    let mut info = Value::enumerator(*vm.dup_enum(eref));
+    vm.temp_push(info);
+    let info = info.as_enumerator().unwrap();
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
     loop {
-        let val = match info.resume(Value::nil()) {
+        let val = match info.resume(&[]) {
             Ok(val) => val,
             Err(err) if err.is_stop_iteration() => break,
             Err(err) => return Err(err),
@@ -158,7 +155,6 @@ fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn with_index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
-    let mut info = vm.dup_enum(eref);
     let block = match &args.block {
         None => {
             // return Enumerator
@@ -170,9 +166,13 @@ fn with_index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     };
 
     let mut c = 0;
+    // Keep the new fiber alive during the iteration.
+    let mut info = Value::enumerator(*vm.dup_enum(eref));
+    vm.temp_push(info);
+    let info = info.as_enumerator().unwrap();
     let len = vm.temp_len();
     loop {
-        let val = match info.resume(Value::nil()) {
+        let val = match info.resume(&[]) {
             Ok(val) => val,
             Err(err) => {
                 if err.is_stop_iteration() {
diff --git a/ruruby/src/builtin/fiber.rs b/ruruby/src/builtin/fiber.rs
index d0fb522..c5058de 100644
--- a/ruruby/src/builtin/fiber.rs
+++ b/ruruby/src/builtin/fiber.rs
@@ -35,10 +35,9 @@ fn inspect(_: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
     Ok(Value::string(inspect))
 }
 
-fn resume(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(0, 1)?;
+fn resume(vm: &mut VM, mut self_val: Value, _: &Args2) -> VMResult {
     let fiber = self_val.expect_fiber("")?;
-    fiber.resume(vm.args().get(0).cloned().unwrap_or(Value::nil()))
+    fiber.resume(vm.args())
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 0f52938..b42177d 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -1,3 +1,4 @@
+use crate::coroutine::FiberState;
 use crate::*;
 
 pub(crate) fn init(globals: &mut Globals) {
@@ -89,8 +90,20 @@ fn extend(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn dup(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn dup(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
+    match self_val.as_rvalue().map(|rv| rv.kind()) {
+        Some(ObjKind::FIBER) => return Err(RubyError::typeerr("Allocator undefined for Fiber.")),
+        Some(ObjKind::ENUMERATOR) => {
+            let eref = self_val.as_enumerator().unwrap();
+            if eref.state != FiberState::Created {
+                return Err(RubyError::typeerr("Can't copy execution context."));
+            }
+            let fiber = vm.dup_enum(eref);
+            return Ok(Value::enumerator(*fiber));
+        }
+        _ => {}
+    }
     let val = self_val.shallow_dup();
     Ok(val)
 }
diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index d3e4008..cf9f702 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -57,6 +57,8 @@ pub struct FiberContext {
     main_rsp: u64,
     stack: Stack,
     pub state: FiberState,
+    /// True while the fiber is running, or waiting for a fiber it has resumed.
+    resumed: bool,
     pub vm: VMRef,
     pub kind: FiberKind,
 }
@@ -70,11 +72,12 @@ impl Drop for FiberContext {
 
 impl GC<RValue> for FiberContext {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
+        // An enumerator can be iterated again even if its fiber is dead.
+        self.kind.mark(alloc);
         if self.state == FiberState::Dead {
             return;
         }
         self.vm.mark(alloc);
-        self.kind.mark(alloc);
     }
 }
 
@@ -147,6 +150,7 @@ impl FiberContext {
             main_rsp: 0,
             stack: Stack::default(),
             state: FiberState::Created,
+            resumed: false,
             vm,
             kind,
         }
@@ -165,23 +169,35 @@ impl FiberContext {
 
 impl FiberContext {
     /// Resume child fiber.
-    pub(crate) fn resume(&mut self, val: Value) -> VMResult {
+    /// At the first time, `args` are passed to the parameters of the block.
+    /// After that, they become the value of the pending `Fiber.yield`.
+    pub(crate) fn resume(&mut self, args: &[Value]) -> VMResult {
         #[cfg(feature = "trace")]
         eprintln!("===> resume");
+        if self.resumed {
+            return Err(RubyError::fiber("Attempt to resume a running fiber."));
+        }
         let ptr = self as _;
         match self.state {
-            FiberState::Dead => Err(RubyError::fiber("Dead fiber called.")),
+            FiberState::Dead => return Err(RubyError::fiber("Dead fiber called.")),
             FiberState::Created => {
                 self.initialize();
-                self.vm.stack_push(val);
+                self.vm.stack_push(Value::array_from_slice(args));
+                self.resumed = true;
                 asm::invoke_context(ptr);
-                self.vm.globals.fiber_result.clone()
             }
             FiberState::Running => {
+                let val = match args {
+                    [] => Value::nil(),
+                    [val] => *val,
+                    _ => Value::array_from_slice(args),
+                };
                 self.vm.stack_push(val);
+                self.resumed = true;
                 asm::switch_context(ptr);
-                self.vm.globals.fiber_result.clone()
             }
         }
+        self.resumed = false;
+        self.vm.globals.fiber_result.clone()
     }
 }
diff --git a/ruruby/src/coroutine/stack.rs b/ruruby/src/coroutine/stack.rs
index f38b7b9..917a045 100644
--- a/ruruby/src/coroutine/stack.rs
+++ b/ruruby/src/coroutine/stack.rs
@@ -93,12 +93,24 @@ extern "C" fn new_context(handle: FiberHandle) {
     fiber_vm.handle = Some(handle);
     let res = match handle.kind() {
         FiberKind::Fiber(context) => {
-            let val = fiber_vm.stack_pop();
-            fiber_vm.push_block_frame_from_heap(*context);
-            if context.as_ep().iseq().lvars > 0 {
-                fiber_vm.lfp[LvarId::from(0usize)] = val;
+            let args = fiber_vm.stack_pop();
+            let args = args.as_array().unwrap();
+            let ep = context.as_ep();
+            match ep.outer() {
+                Some(outer) => fiber_vm.eval_block_with_methodid(
+                    ep.iseq().method,
+                    ep.self_value(),
+                    outer,
+                    &Args::from_slice(&args),
+                ),
+                None => {
+                    fiber_vm.push_block_frame_from_heap(*context);
+                    if let Some(val) = args.get(0) {
+                        fiber_vm.lfp[LvarId::from(0usize)] = *val;
+                    }
+                    fiber_vm.run_loop()
+                }
             }
-            fiber_vm.run_loop()
         }
         FiberKind::Enum(info) => fiber_vm.enumerator_fiber(info.receiver, &info.args, info.method),
     };
-- 
2.43.0


From 8abe1d3b5af303843a226043e441533d13d6e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:18 +0000
Subject: [PATCH 26/57] fix: Hash keeps insertion order after delete, copies
 string keys, each yields pairs, merge with a block, hashes as keys, changes
 during iteration

---
 ruruby/src/builtin/hash.rs | 92 ++++++++++++++++++++++++--------------
 ruruby/src/value/hash.rs   | 59 +++++++++++++++++-------
 ruruby/src/value/rvalue.rs |  2 +-
 ruruby/src/vm/executor.rs  |  2 +-
 4 files changed, 102 insertions(+), 53 deletions(-)

diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 33bba04..6808132 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -111,31 +111,31 @@ fn default(_: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// Enumerable#select { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/select.html
 fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
-    let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    let mut res = Value::hash_from_map(FxIndexMap::default());
+    vm.temp_push(res);
+    each_entry(vm, self_val, |vm, k, v| {
         if vm.eval_block2(&method, k, v)?.to_bool() {
-            res.insert(HashKey(k), v);
+            res.as_mut_hash().unwrap().insert(k, v);
         };
-    }
-
-    Ok(Value::hash_from_map(res))
+        Ok(())
+    })?;
+    Ok(res)
 }
 
 /// Enumerable#reject { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/reject.html
 fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
-    let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    let mut res = Value::hash_from_map(FxIndexMap::default());
+    vm.temp_push(res);
+    each_entry(vm, self_val, |vm, k, v| {
         if !vm.eval_block2(&method, k, v)?.to_bool() {
-            res.insert(HashKey(k), v);
+            res.as_mut_hash().unwrap().insert(k, v);
         };
-    }
-
-    Ok(Value::hash_from_map(res))
+        Ok(())
+    })?;
+    Ok(res)
 }
 
 fn has_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -175,28 +175,45 @@ fn values(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::array_from(hash.values()))
 }
 
+/// Call `f` with every key and its value.
+/// `f` may change the hash: removed entries are skipped, new ones are not visited.
+fn each_entry(
+    vm: &mut VM,
+    hash: Value,
+    mut f: impl FnMut(&mut VM, Value, Value) -> Result<(), RubyError>,
+) -> Result<(), RubyError> {
+    let keys = Value::array_from(hash.as_hash().unwrap().keys());
+    vm.temp_push(keys);
+    for k in keys.as_array().unwrap().iter() {
+        let v = match hash.as_hash().unwrap().get(k) {
+            Some(v) => *v,
+            None => continue,
+        };
+        f(vm, *k, v)?;
+    }
+    Ok(())
+}
+
 fn each_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (_, v) in hash.iter() {
-        //vm.eval_block1(&block, v)?;
+    each_entry(vm, self_val, |vm, _, v| {
         f(vm, v)?;
-    }
+        Ok(())
+    })?;
 
     Ok(self_val)
 }
 
 fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (k, _) in hash.iter() {
-        //vm.eval_block1(&block, k)?;
+    each_entry(vm, self_val, |vm, k, _| {
         f(vm, k)?;
-    }
+        Ok(())
+    })?;
 
     Ok(self_val)
 }
@@ -205,25 +222,32 @@ fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/Hash/i/each.html
 fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
-    for (k, v) in hash.iter() {
-        vm.eval_block2(&block, k, v)?;
-    }
+    each_entry(vm, self_val, |vm, k, v| {
+        vm.eval_block1(&block, Value::array_from(vec![k, v]))?;
+        Ok(())
+    })?;
 
     Ok(self_val)
 }
 
-fn merge(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
-    let mut new = (self_val.expect_hash("Receiver")?).clone();
-    for arg in vm.args() {
-        let other = arg.expect_hash("First arg")?;
-        for (k, v) in other.iter() {
-            new.insert(k, v);
-        }
+fn merge(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    let mut new = Value::hash_from((self_val.expect_hash("Receiver")?).clone());
+    vm.temp_push(new);
+    for arg in vm.args().to_vec() {
+        arg.expect_hash("First arg")?;
+        each_entry(vm, arg, |vm, k, v| {
+            let old = new.as_hash().unwrap().get(&k).cloned();
+            let v = match (&args.block, old) {
+                (Some(block), Some(old)) => vm.eval_block(block, &[k, old, v])?,
+                _ => v,
+            };
+            new.as_mut_hash().unwrap().insert(k, v);
+            Ok(())
+        })?;
     }
 
-    Ok(Value::hash_from(new))
+    Ok(new)
 }
 
 fn fetch(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 4ffff35..e250bf5 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -1,5 +1,6 @@
 use crate::*;
-use std::hash::Hash;
+use fxhash::FxHasher;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[derive(Debug, Clone)]
@@ -11,22 +12,21 @@ pub enum HashInfo {
 impl Hash for HashInfo {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self {
-            HashInfo::Map(h) => {
-                for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
-                }
-            }
-            HashInfo::IdentMap(h) => {
-                for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
-                }
-            }
+            HashInfo::Map(h) => hash_pairs(h.iter()).hash(state),
+            HashInfo::IdentMap(h) => hash_pairs(h.iter()).hash(state),
         }
     }
 }
 
+/// The order of the pairs must not affect the hash value.
+fn hash_pairs<'a, K: Hash + 'a>(iter: impl Iterator<Item = (&'a K, &'a Value)>) -> u64 {
+    iter.fold(0, |acc: u64, pair| {
+        let mut hasher = FxHasher::default();
+        pair.hash(&mut hasher);
+        acc.wrapping_add(hasher.finish())
+    })
+}
+
 impl PartialEq for HashInfo {
     // This type of equality is used for comparison for keys of Hash.
     fn eq(&self, other: &Self) -> bool {
@@ -51,6 +51,16 @@ impl PartialEq for HashInfo {
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct HashKey(pub Value);
 
+impl HashKey {
+    /// A string is copied to be a key, so that a later change of it does not affect the hash.
+    pub(crate) fn copied(key: Value) -> Self {
+        match key.as_rvalue() {
+            Some(rv) if rv.kind() == ObjKind::STRING => HashKey(key.shallow_dup()),
+            _ => HashKey(key),
+        }
+    }
+}
+
 impl Deref for HashKey {
     type Target = Value;
     fn deref(&self) -> &Self::Target {
@@ -250,15 +260,30 @@ impl HashInfo {
 
     pub(crate) fn insert(&mut self, k: Value, v: Value) {
         match self {
-            HashInfo::Map(map) => map.insert(HashKey(k), v),
-            HashInfo::IdentMap(map) => map.insert(IdentKey(k), v),
+            HashInfo::Map(map) => match map.get_mut(&HashKey(k)) {
+                Some(val) => *val = v,
+                None => {
+                    map.insert(HashKey::copied(k), v);
+                }
+            },
+            HashInfo::IdentMap(map) => {
+                map.insert(IdentKey(k), v);
+            }
         };
     }
 
+    /// eql?
+    pub(crate) fn eql(&self, other: &Self) -> bool {
+        *self == *other
+            && self
+                .iter()
+                .all(|(k, v)| other.get(&k).map_or(true, |v2| v.eql(v2)))
+    }
+
     pub(crate) fn remove(&mut self, k: Value) -> Option<Value> {
         match self {
-            HashInfo::Map(map) => map.remove(&HashKey(k)),
-            HashInfo::IdentMap(map) => map.remove(&IdentKey(k)),
+            HashInfo::Map(map) => map.shift_remove(&HashKey(k)),
+            HashInfo::IdentMap(map) => map.shift_remove(&IdentKey(k)),
         }
     }
 
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 705b7c5..773b38a 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -435,7 +435,7 @@ impl RValue {
                 })
             }
             (ObjKind::RANGE, ObjKind::RANGE) => self.range().eql(&other.range()),
-            (ObjKind::HASH, ObjKind::HASH) => *self.rhash() == *other.rhash(),
+            (ObjKind::HASH, ObjKind::HASH) => self.rhash().eql(other.rhash()),
             (ObjKind::METHOD, ObjKind::METHOD) => *self.method() == *other.method(),
             (ObjKind::UNBOUND_METHOD, ObjKind::UNBOUND_METHOD) => *self.method() == *other.method(),
             (ObjKind::INVALID, _) => panic!("Invalid rvalue. (maybe GC problem) {:?}", self),
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 1878b5e..d292466 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -947,7 +947,7 @@ impl VM {
         for i in 0..arg_num {
             let key = p[(i * 2) as isize];
             let value = p[(i * 2 + 1) as isize];
-            hash.insert(HashKey(key), value);
+            hash.insert(HashKey::copied(key), value);
         }
         self.stack.sp = p;
         hash
-- 
2.43.0


From 592e1aff6c1604fe7585fc47cbb95661a922dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 27/57] fix: String subscripts, slice!, split, tr, count,
 chomp, succ and equality follow Ruby's character semantics

---
 ruruby/src/builtin/string.rs | 652 +++++++++++++++++++----------------
 ruruby/src/value/string.rs   |  19 +-
 2 files changed, 360 insertions(+), 311 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 1c354ca..95fd4d4 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -1,5 +1,6 @@
 use crate::vm::*;
 use crate::*;
+use num::ToPrimitive;
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
@@ -80,8 +81,7 @@ fn string_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn to_s(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let self_ = self_val.as_rstring().unwrap();
-    Ok(Value::string(self_.to_s()))
+    Ok(self_val)
 }
 
 fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -125,65 +125,68 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(res)
 }
 
-fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    fn conv_index(i: i64, len: usize) -> Option<usize> {
-        if i >= 0 {
-            if i < len as i64 {
-                Some(i as usize)
-            } else {
-                None
-            }
-        } else {
-            match len as i64 + i {
-                n if n < 0 => None,
-                n => Some(n as usize),
+/// Number of characters `start` and `len` select in a string of `size` characters.
+fn clip(start: i64, len: i64, size: i64) -> Option<(usize, usize)> {
+    let start = if start < 0 { start + size } else { start };
+    if start < 0 || start > size || len < 0 {
+        return None;
+    }
+    Some((start as usize, std::cmp::min(len, size - start) as usize))
+}
+
+/// Character position and length of the part of `string` which `arg0` (and `len`) select.
+fn select(string: &str, arg0: Value, len: Option<Value>) -> Result<Option<(usize, usize)>, RubyError> {
+    let size = string.chars().count() as i64;
+    if let Some(len) = len {
+        let start = arg0.coerce_to_fixnum("1st arg")?;
+        return Ok(clip(start, len.coerce_to_fixnum("2nd arg")?, size));
+    }
+    if let Some(i) = arg0.as_fixnum() {
+        return Ok(clip(i, 1, size).filter(|(_, len)| *len == 1));
+    }
+    if let Some(range) = arg0.as_range() {
+        let start = match range.start {
+            v if v.is_nil() => 0,
+            v => v.coerce_to_fixnum("Index")?,
+        };
+        let start = if start < 0 { start + size } else { start };
+        let end = match range.end {
+            v if v.is_nil() => size,
+            v => {
+                let end = v.coerce_to_fixnum("Index")?;
+                let end = if end < 0 { end + size } else { end };
+                end.saturating_add(if range.exclude { 0 } else { 1 })
             }
+        };
+        if start < 0 {
+            return Ok(None);
         }
+        return Ok(clip(start, std::cmp::max(end - start, 0), size));
     }
+    if let Some(pat) = arg0.as_string() {
+        return Ok(string
+            .find(pat)
+            .map(|pos| (string[..pos].chars().count(), pat.chars().count())));
+    }
+    Err(RubyError::argument("Bad type for index."))
+}
+
+/// Byte range of `len` characters from the character position `start`.
+fn byte_range(string: &str, (start, len): (usize, usize)) -> std::ops::Range<usize> {
+    let pos = |i| {
+        string
+            .char_indices()
+            .nth(i)
+            .map_or(string.len(), |(pos, _)| pos)
+    };
+    pos(start)..pos(start + len)
+}
+
+fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let lhs = self_val.expect_string("Receiver")?;
     match vm[0].unpack() {
-        RV::Integer(i) => {
-            let index = match conv_index(i, lhs.chars().count()) {
-                Some(i) => i,
-                None => return Ok(Value::nil()),
-            };
-            let len = if args.len() == 2 {
-                match vm[1].coerce_to_fixnum("1st arg")? {
-                    0 => return Ok(Value::string("")),
-                    i if i < 0 => return Ok(Value::nil()),
-                    i => i as usize,
-                }
-            } else {
-                1usize
-            };
-            let ch: String = lhs.chars().skip(index).take(len).collect();
-            if ch.len() != 0 {
-                Ok(Value::string(ch))
-            } else {
-                Ok(Value::nil())
-            }
-        }
         RV::Object(oref) => match oref.kind() {
-            ObjKind::RANGE => {
-                let info = &*oref.range();
-                let len = lhs.chars().count();
-                // TODO: exclude?
-                let (start, end) = match (info.start.as_fixnum(), info.end.as_fixnum()) {
-                    (Some(start), Some(end)) => {
-                        match (conv_index(start, len), conv_index(end, len)) {
-                            (Some(start), Some(end)) if start > end => {
-                                return Ok(Value::string(""))
-                            }
-                            (Some(start), Some(end)) => (start, end),
-                            _ => return Ok(Value::nil()),
-                        }
-                    }
-                    _ => return Err(RubyError::argument("Index must be Integer.")),
-                };
-                let s: String = lhs.chars().skip(start).take(end - start + 1).collect();
-                Ok(Value::string(s))
-            }
             ObjKind::REGEXP => {
                 let info = &*oref.regexp();
                 let nth = if args.len() == 1 {
@@ -215,37 +218,49 @@ fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
                     Err(err) => Err(RubyError::internal(format!("Capture failed. {:?}", err))),
                 }
             }
-            _ => Err(RubyError::argument("Bad type for index.")),
+            _ => substring(vm, lhs, args),
         },
-        _ => Err(RubyError::argument("Bad type for index.")),
+        _ => substring(vm, lhs, args),
+    }
+}
+
+fn substring(vm: &mut VM, string: &str, args: &Args2) -> VMResult {
+    let len = if args.len() == 2 { Some(vm[1]) } else { None };
+    match select(string, vm[0], len)? {
+        Some(part) => Ok(Value::string(&string[byte_range(string, part)])),
+        None => Ok(Value::nil()),
     }
 }
 
 fn index_assign(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(2, 3)?;
-    let string = self_val.as_mut_rstring().unwrap();
-    let str_len = string.chars().count();
-    let start_pos = vm[0].coerce_to_fixnum("1st arg")? as usize;
-    let (len, mut subst_val) = match args.len() {
-        2 => (0, vm[1]),
-        3 => (vm[1].coerce_to_fixnum("2nd arg")? as usize - 1, vm[2]),
-        _ => unreachable!(),
+    let arg0 = vm[0];
+    let (len, mut val) = match args.len() {
+        2 => (None, vm[1]),
+        _ => (Some(vm[1]), vm[2]),
     };
-    if start_pos >= str_len {
-        return Err(RubyError::index(format!(
-            "Index {:?} out of string.",
-            vm[0]
-        )));
-    }
-    let (start, end) = (
-        string.char_indices().nth(start_pos).unwrap().0,
-        match string.char_indices().nth(start_pos + len + 1) {
-            Some((p, _)) => p,
-            None => string.len(),
-        },
-    );
-    string.replace_range(start..end, subst_val.expect_string("Value")?);
-    Ok(Value::nil())
+    let subst = val.expect_string("Value")?.to_string();
+    let string = self_val.expect_string("Receiver")?;
+    let size = string.chars().count() as i64;
+    let part = match (arg0.as_fixnum(), len) {
+        // The position just after the last character can be assigned to.
+        (Some(i), None) if i == size => Some((size as usize, 0)),
+        _ => select(string, arg0, len)?,
+    };
+    let range = match part {
+        Some(part) => byte_range(string, part),
+        None => {
+            return Err(RubyError::index(format!(
+                "Index {:?} out of string.",
+                arg0
+            )))
+        }
+    };
+    self_val
+        .as_mut_rstring()
+        .unwrap()
+        .replace_range(range, &subst);
+    Ok(val)
 }
 
 fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -261,11 +276,13 @@ fn concat(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let lhs = self_val.as_mut_rstring().unwrap();
     match vm[0].as_rstring() {
-        Some(rhs) => lhs.append(rhs),
+        // A string can be appended to itself.
+        Some(rhs) => lhs.append(&rhs.clone()),
         None => match vm[0].as_fixnum() {
             Some(i) => {
-                let rhs = RString::Bytes(vec![i as i8 as u8]);
-                lhs.append(&rhs);
+                let ch = i.to_u32().and_then(char::from_u32);
+                let ch = ch.ok_or_else(|| RubyError::range(format!("{} out of char range.", i)))?;
+                lhs.append(&RString::from(ch.to_string()));
             }
             None => return Err(RubyError::argument("Arg must be String or Integer.")),
         },
@@ -447,111 +464,122 @@ fn to_sym(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 ///
 /// split(sep = $;, limit = 0) {|s| ... } -> self
 ///
-/// TODO: support nil and ' ' for sep.
-///
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/split.html
 fn split(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(1, 2)?;
-    let mut string = self_val.expect_string("Receiver")?;
-    let arg0 = vm[0];
-    if let Some(sep) = arg0.as_string() {
-        let lim = if args.len() > 1 {
-            vm[1].coerce_to_fixnum("Second arg must be Integer.")?
-        } else {
-            0
-        };
-        if sep == " " {
-            string = string.trim_start_matches(|c: char| c.is_ascii_whitespace());
-        }
-        let v: Vec<Value> = if lim < 0 {
-            string.split(sep).map(|s| Value::string(s)).collect()
-        } else if lim == 0 {
-            /*if sep == " " {
-                string = string.trim_end_matches(|c: char| c.is_ascii_whitespace());
-            }*/
-            let mut vec: Vec<&str> = string.split(sep).collect();
-            while let Some(s) = vec.last() {
-                if s.is_empty() {
-                    vec.pop().unwrap();
-                } else {
-                    break;
+    args.check_args_range(0, 2)?;
+    let string = self_val.expect_string("Receiver")?;
+    let arg0 = if args.len() > 0 { vm[0] } else { Value::nil() };
+    let lim = if args.len() > 1 {
+        vm[1].coerce_to_fixnum("Second arg must be Integer.")?
+    } else {
+        0
+    };
+    let mut res: Vec<&str> = vec![];
+    if string.is_empty() {
+    } else if lim == 1 {
+        res.push(string);
+    } else if arg0.is_nil() || arg0.as_string() == Some(" ") {
+        // Fields are separated by runs of whitespace, and leading whitespace is ignored.
+        let mut rest = string.trim_start_matches(is_space);
+        while !rest.is_empty() && (lim <= 0 || (res.len() as i64) < lim - 1) {
+            match rest.find(is_space) {
+                Some(pos) => {
+                    res.push(&rest[..pos]);
+                    rest = rest[pos..].trim_start_matches(is_space);
+                    if rest.is_empty() {
+                        res.push(rest);
+                    }
                 }
-            }
-            vec.into_iter().map(|x| Value::string(x)).collect()
-        } else {
-            string
-                .splitn(lim as usize, sep)
-                .map(|x| Value::string(x))
-                .collect()
-        };
-        match &args.block {
-            Some(b) => {
-                let tmp = Value::array_from(v.clone());
-                vm.temp_push(tmp);
-                let iter = v.into_iter();
-                vm.eval_block_map1_iter(b, iter)?;
-                Ok(self_val)
-            }
-            None => Ok(Value::array_from(v)),
-        }
-    } else if let Some(re) = arg0.as_regexp() {
-        let lim = if args.len() > 1 {
-            vm[1].coerce_to_fixnum("Second arg must be Integer.")?
-        } else {
-            0
-        };
-        let all_cap = re.captures_iter(string);
-        let mut cursor = 0usize;
-        let mut res = vec![];
-        let mut count = 0;
-        'l: for c in all_cap {
-            let c = c.unwrap();
-            let mut iter = c.iter();
-            let m = iter.next().unwrap().unwrap();
-            count += 1;
-            if count == lim {
-                break 'l;
-            } else {
-                res.push(&string[cursor..m.start()]);
-            }
-            while let Some(m) = iter.next() {
-                count += 1;
-                if count == lim {
-                    cursor = m.unwrap().start();
-                    break 'l;
-                } else {
-                    res.push(m.unwrap().as_str())
+                None => {
+                    res.push(rest);
+                    rest = "";
                 }
             }
-            cursor = m.end();
         }
-        if cursor <= string.len() {
-            res.push(&string[cursor..]);
+        if !rest.is_empty() {
+            res.push(rest);
         }
-        // if lim == 0, remove all empty strings from a tail.
-        if lim == 0 {
-            while let Some(s) = res.last() {
-                if s.is_empty() {
-                    res.pop().unwrap();
-                } else {
+    } else if let Some(sep) = arg0.as_string() {
+        let mut rest = string;
+        loop {
+            let pos = if lim > 0 && res.len() as i64 >= lim - 1 {
+                None
+            } else if sep.is_empty() {
+                rest.chars().next().map(|c| (c.len_utf8(), c.len_utf8()))
+            } else {
+                rest.find(sep).map(|pos| (pos, pos + sep.len()))
+            };
+            match pos {
+                Some((end, next)) => {
+                    res.push(&rest[..end]);
+                    rest = &rest[next..];
+                }
+                None => {
+                    res.push(rest);
                     break;
                 }
             }
         }
-        let iter = res.into_iter().map(|s| Value::string(s));
-        match &args.block {
-            Some(b) => {
-                vm.eval_block_map1_iter(b, iter)?;
-                Ok(self_val)
+    } else if let Some(re) = arg0.as_regexp() {
+        let mut count = 1;
+        let (mut beg, mut start) = (0, 0);
+        let mut last_null = false;
+        while start <= string.len() {
+            let captures = match re.captures_from_pos(string, start) {
+                Ok(Some(captures)) => captures,
+                Ok(None) => break,
+                Err(err) => {
+                    return Err(RubyError::internal(format!("Capture failed. {:?}", err)));
+                }
+            };
+            let m = captures.get(0).unwrap();
+            let next_char = |pos: usize| pos + string[pos..].chars().next().map_or(1, char::len_utf8);
+            if m.start() == start && m.end() == start {
+                if !last_null {
+                    start = next_char(start);
+                    last_null = true;
+                    continue;
+                }
+                res.push(&string[beg..std::cmp::min(next_char(beg), string.len())]);
+                beg = start;
+            } else {
+                res.push(&string[beg..m.start()]);
+                beg = m.end();
+                start = m.end();
             }
-            None => {
-                let v = iter.collect();
-                Ok(Value::array_from(v))
+            last_null = false;
+            res.extend(captures.iter().skip(1).flatten().map(|m| m.as_str()));
+            count += 1;
+            if lim > 0 && lim <= count {
+                break;
             }
         }
+        if beg < string.len() || lim != 0 {
+            res.push(&string[std::cmp::min(beg, string.len())..]);
+        }
     } else {
-        Err(RubyError::argument("Ist arg must be an String or RegExp."))
+        return Err(RubyError::argument("Ist arg must be an String or RegExp."));
+    }
+    // if lim == 0, remove all empty strings from a tail.
+    if lim == 0 {
+        while res.last().map_or(false, |s| s.is_empty()) {
+            res.pop();
+        }
     }
+    let v: Vec<Value> = res.into_iter().map(|s| Value::string(s)).collect();
+    match &args.block {
+        Some(b) => {
+            let tmp = Value::array_from(v.clone());
+            vm.temp_push(tmp);
+            vm.eval_block_map1_iter(b, v.into_iter())?;
+            Ok(self_val)
+        }
+        None => Ok(Value::array_from(v)),
+    }
+}
+
+fn is_space(c: char) -> bool {
+    c.is_ascii_whitespace() || c == '\x0b'
 }
 
 fn include_(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
@@ -638,98 +666,29 @@ fn scan(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
-fn slice_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    fn calc_idx(target: &str, i: i64) -> Option<usize> {
-        if i >= 0 {
-            Some(i as usize)
-        } else {
-            match target.chars().count() as i64 + i {
-                idx if idx < 0 => None,
-                idx => Some(idx as usize),
-            }
-        }
-    }
-    let mut self_val2 = self_val;
+fn slice_(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
-    let target = self_val2.as_mut_rstring().unwrap();
     let arg0 = vm[0];
-    match arg0.unpack() {
-        RV::Integer(i) => {
-            if args.len() == 1 {
-                let idx = match calc_idx(target.as_string()?, i) {
-                    Some(i) => i,
-                    None => return Ok(Value::nil()),
-                };
-                let (pos, ch) = match target.char_indices().nth(idx) {
-                    Some((pos, ch)) => (pos, ch),
-                    None => return Ok(Value::nil()),
-                };
-                target.remove(pos);
-                return Ok(Value::string(ch.to_string()));
-            } else {
-                let len = vm[1].coerce_to_fixnum("2nd arg")?;
-                let len = if len < 0 {
-                    return Ok(Value::nil());
-                } else {
-                    len as usize
-                };
-                let start = match calc_idx(target.as_string()?, i) {
-                    Some(i) => i,
-                    None => return Ok(Value::nil()),
-                };
-                let mut iter = target.char_indices().skip(start);
-                let mut take = iter.by_ref().take(len).peekable();
-                let start_pos = match take.peek().cloned() {
-                    Some((pos, _)) => pos,
-                    None => return Ok(Value::nil()),
-                };
-                let take: String = take.map(|(_, ch)| ch).collect();
-
-                match iter.next() {
-                    Some((end_pos, _)) => {
-                        target.replace_range(start_pos..end_pos, "");
-                    }
-                    None => {
-                        target.replace_range(start_pos.., "");
-                    }
-                }
-
-                Ok(Value::string(take))
-            }
-        }
-        RV::Object(_rvalue) => {
-            let rval = arg0.rvalue_mut();
-            match rval.kind() {
-                ObjKind::STRING => {
-                    let rs = rval.string_mut();
-                    args.check_args_num(1)?;
-                    let given = rs.as_string()?;
-                    *target = RString::from(&target.replacen(given, "", usize::MAX));
-                    Ok(Value::string(given))
-                }
-                ObjKind::REGEXP => {
-                    let regexp = &*rval.regexp();
-                    let given = target.as_string()?;
-                    let (res, cap) = regexp.replace_once(vm, given, "")?;
-                    let ret = match cap {
-                        Some(cap) => Value::string(cap.get(0).unwrap().as_str()),
-                        None => Value::nil(),
-                    };
-                    *target = RString::from(&res);
-                    Ok(ret)
-                }
-                _ => {
-                    return Err(RubyError::argument(
-                        "First arg must be Integer, String, Regexp or Range.",
-                    ))
-                }
-            }
-        }
-        _ => {
-            return Err(RubyError::argument(
-                "First arg must be Integer, String, Regexp or Range.",
-            ))
+    let len = if args.len() == 2 { Some(vm[1]) } else { None };
+    let given = self_val.expect_string("Receiver")?;
+    if let Some(regexp) = arg0.as_regexp() {
+        let (res, cap) = regexp.replace_once(vm, given, "")?;
+        let ret = match cap {
+            Some(cap) => Value::string(cap.get(0).unwrap().as_str()),
+            None => Value::nil(),
+        };
+        *self_val.as_mut_rstring().unwrap() = RString::from(&res);
+        return Ok(ret);
+    }
+    match select(given, arg0, len)? {
+        Some(part) => {
+            let range = byte_range(given, part);
+            let ret = Value::string(&given[range.clone()]);
+            let target = self_val.as_mut_rstring().unwrap();
+            target.replace_range(range, "");
+            Ok(ret)
         }
+        None => Ok(Value::nil()),
     }
 }
 
@@ -766,14 +725,73 @@ fn str_match(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
+/// A set of characters as `tr` and `count` spell it: `a-z` is a range, and a leading `^` negates.
+struct CharSet {
+    negate: bool,
+    chars: Vec<char>,
+}
+
+impl CharSet {
+    fn new(spec: &str) -> Result<Self, RubyError> {
+        let spec: Vec<char> = spec.chars().collect();
+        let negate = spec.len() > 1 && spec[0] == '^';
+        let mut chars = vec![];
+        let mut i = if negate { 1 } else { 0 };
+        while i < spec.len() {
+            if spec[i] == '\\' && i + 1 < spec.len() {
+                i += 1;
+            }
+            let start = spec[i];
+            if i + 2 < spec.len() && spec[i + 1] == '-' {
+                let mut next = i + 2;
+                if spec[next] == '\\' && next + 1 < spec.len() {
+                    next += 1;
+                }
+                let end = spec[next];
+                if start > end {
+                    return Err(RubyError::argument(format!(
+                        "invalid range \"{}-{}\" in string transliteration",
+                        start, end
+                    )));
+                }
+                chars.extend(start..=end);
+                i = next + 1;
+            } else {
+                chars.push(start);
+                i += 1;
+            }
+        }
+        Ok(CharSet { negate, chars })
+    }
+
+    fn contains(&self, c: char) -> bool {
+        self.chars.contains(&c) != self.negate
+    }
+}
+
 fn tr(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(2)?;
     let rec = self_val.expect_string("Receiver")?;
     let mut arg0 = vm[0];
     let mut arg1 = vm[1];
-    let from = arg0.expect_string("1st arg")?;
-    let to = arg1.expect_string("2nd arg")?;
-    let res = rec.replace(from, to);
+    let from = CharSet::new(arg0.expect_string("1st arg")?)?;
+    let mut to = CharSet::new(arg1.expect_string("2nd arg")?)?;
+    if to.negate {
+        // `^` means nothing special in the replacement.
+        to.chars.insert(0, '^');
+    }
+    let mut res = String::new();
+    for c in rec.chars() {
+        let pos = if from.negate {
+            from.contains(c).then(|| usize::MAX)
+        } else {
+            from.chars.iter().position(|x| *x == c)
+        };
+        match pos {
+            None => res.push(c),
+            Some(i) => res.extend(to.chars.get(i).or(to.chars.last())),
+        }
+    }
     Ok(Value::string(res))
 }
 
@@ -800,8 +818,8 @@ fn bytes(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 None => return Err(RubyError::argument("Receiver must be String.")),
             };
             let f = vm.eval_block_map1(block);
-            for b in rstr.as_bytes() {
-                let byte = Value::integer(*b as i64);
+            for b in rstr.as_bytes().to_vec() {
+                let byte = Value::integer(b as i64);
                 //vm.eval_block1(block, byte)?;
                 f(vm, byte)?;
             }
@@ -818,8 +836,8 @@ fn each_byte(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::argument("Receiver must be String.")),
     };
     let f = vm.eval_block_map1(block);
-    for b in rstr.as_bytes() {
-        let byte = Value::integer(*b as i64);
+    for b in rstr.as_bytes().to_vec() {
+        let byte = Value::integer(b as i64);
         //vm.eval_block1(block, byte)?;
         f(vm, byte)?;
     }
@@ -839,7 +857,7 @@ fn chars(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn each_char(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let block = args.expect_block()?;
-    let chars = self_val.expect_string("Receiver")?;
+    let chars = self_val.expect_string("Receiver")?.to_string();
     let f = vm.eval_block_map1(block);
     for c in chars.chars() {
         let char = Value::string(c.to_string());
@@ -914,21 +932,35 @@ fn rstrip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::string(res))
 }
 
-/// String#chomp
-/// https://docs.ruby-lang.org/ja/latest/method/String/i/chomp.html
-fn chomp(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(0, 1)?;
-    let rs = if args.len() == 0 {
-        "\n".to_string()
+/// `string` without the line terminators `args` describes at its end.
+fn chomped(vm: &mut VM, string: &str, args: &Args2) -> Result<String, RubyError> {
+    let res = if args.len() == 0 {
+        string.trim_end_matches(&['\n', '\r'][..])
     } else {
         let mut arg = vm[0];
         if arg.is_nil() {
-            return Ok(self_val);
+            string
+        } else {
+            match arg.expect_string("1st arg")? {
+                "" => {
+                    let mut s = string;
+                    while let Some(rest) = s.strip_suffix("\r\n").or(s.strip_suffix('\n')) {
+                        s = rest;
+                    }
+                    s
+                }
+                rs => string.strip_suffix(rs).unwrap_or(string),
+            }
         }
-        arg.expect_string("1st arg")?.to_owned()
     };
-    let self_ = self_val.expect_string("Receiver")?;
-    let res = self_.trim_end_matches(&rs).to_string();
+    Ok(res.to_string())
+}
+
+/// String#chomp
+/// https://docs.ruby-lang.org/ja/latest/method/String/i/chomp.html
+fn chomp(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_range(0, 1)?;
+    let res = chomped(vm, self_val.expect_string("Receiver")?, args)?;
     Ok(Value::string(res))
 }
 
@@ -936,17 +968,14 @@ fn chomp(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/chomp=21.html
 fn chomp_(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
-    let rs = if args.len() == 0 {
-        "\n".to_string()
-    } else {
-        let mut arg = vm[0];
-        if arg.is_nil() {
-            return Ok(self_val);
-        }
-        arg.expect_string("1st arg")?.to_owned()
-    };
-    let self_ = self_val.expect_string("Receiver")?;
-    let res = self_.trim_end_matches(&rs).to_string();
+    if args.len() == 1 && vm[0].is_nil() {
+        return Ok(self_val);
+    }
+    let string = self_val.expect_string("Receiver")?;
+    let res = chomped(vm, string, args)?;
+    if res.len() == string.len() {
+        return Ok(Value::nil());
+    }
     *self_val.as_mut_rstring().unwrap() = RString::from(res);
     Ok(self_val)
 }
@@ -1124,6 +1153,17 @@ fn succ_char(ch: char) -> char {
     std::char::from_u32(u).expect("Error occured in char_forward()")
 }
 
+fn insert_carry(buf: &mut Vec<char>, last_alnum: usize) {
+    let carry = match buf[last_alnum] {
+        '0' => '1',
+        '０' => '１',
+        'a' => 'a',
+        'A' => 'A',
+        _ => return,
+    };
+    buf.insert(last_alnum + 1, carry);
+}
+
 fn str_next(self_: &str) -> String {
     if self_.len() == 0 {
         return "".to_string();
@@ -1132,6 +1172,8 @@ fn str_next(self_: &str) -> String {
     let mut buf: Vec<char> = vec![];
     let mut carry_flag = true;
     let mut last_alnum = 0;
+    let mut wrapped = None;
+    let mut gap = false;
     if self_.chars().all(|c| !c.is_alphanumeric()) {
         // non-alnum mode
         for c in chars.rev() {
@@ -1145,7 +1187,23 @@ fn str_next(self_: &str) -> String {
         return buf.iter().rev().collect::<String>();
     }
     for c in chars.rev() {
+        // Beyond a gap, digits do not carry into letters nor letters into digits.
+        if gap && carry_flag {
+            if let Some(w) = wrapped {
+                let w: char = w;
+                if w.is_ascii_digit() && c.is_ascii_alphabetic()
+                    || w.is_ascii_alphabetic() && c.is_ascii_digit()
+                {
+                    insert_carry(&mut buf, last_alnum);
+                    carry_flag = false;
+                }
+            }
+        }
+        gap = !c.is_alphanumeric();
         if carry_flag {
+            if !gap {
+                wrapped = Some(c);
+            }
             if '0' <= c && c <= '8'
                 || 'a' <= c && c <= 'y'
                 || 'A' <= c && c <= 'Y'
@@ -1176,16 +1234,7 @@ fn str_next(self_: &str) -> String {
         }
     }
     if carry_flag {
-        let c = buf[last_alnum];
-        if c == '0' {
-            buf.insert(last_alnum + 1, '1');
-        } else if c == '０' {
-            buf.insert(last_alnum + 1, '１');
-        } else if c == 'a' {
-            buf.insert(last_alnum + 1, 'a');
-        } else if c == 'A' {
-            buf.insert(last_alnum + 1, 'A');
-        }
+        insert_carry(&mut buf, last_alnum);
     }
     buf.iter().rev().collect::<String>()
 }
@@ -1194,11 +1243,8 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut arg0 = vm[0];
     let target = self_val.as_string().unwrap();
-    let mut c = 0;
-    let iter = arg0.expect_string("Args")?.chars();
-    for ch in iter {
-        c += target.rmatches(|x| ch == x).count();
-    }
+    let set = CharSet::new(arg0.expect_string("Args")?)?;
+    let c = target.chars().filter(|c| set.contains(*c)).count();
     Ok(Value::integer(c as i64))
 }
 
diff --git a/ruruby/src/value/string.rs b/ruruby/src/value/string.rs
index 789dd5e..6a020e7 100644
--- a/ruruby/src/value/string.rs
+++ b/ruruby/src/value/string.rs
@@ -5,7 +5,7 @@ pub type SmallString = ArrayString<31>;
 
 const SMALL_STRING_CAPACITY: usize = 31;
 
-#[derive(Clone, PartialEq, Hash)]
+#[derive(Clone)]
 pub enum RString {
     Str(String),
     SmallStr(SmallString),
@@ -281,12 +281,15 @@ impl RString {
     }
 }
 
-/*impl std::hash::Hash for RString {
+/// Strings are equal when their bytes are, however they are stored.
+impl PartialEq for RString {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_bytes() == other.as_bytes()
+    }
+}
+
+impl std::hash::Hash for RString {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        match self {
-            RString::Str(s) => s.hash(state),
-            RString::SmallStr(s) => s.hash(state),
-            RString::Bytes(b) => b.hash(state),
-        };
+        self.as_bytes().hash(state);
     }
-}*/
+}
-- 
2.43.0


From 537b034cc2c84cb7b0d9eb9f6daeb6b329f959e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 28/57] fix: comparison operators yield the value of the
 method, subclasses and singletons of built-in classes keep their own
 operators, equality and arithmetic of mixed operands

---
 ruruby/src/arith.rs                |  31 +++---
 ruruby/src/builtin/comparable.rs   |  60 +++++-------
 ruruby/src/builtin/float.rs        |   8 +-
 ruruby/src/builtin/hash.rs         |  15 +++
 ruruby/src/builtin/integer.rs      |  14 +--
 ruruby/src/builtin/numeric.rs      |  52 +++++++++--
 ruruby/src/builtin/object.rs       |  28 +++++-
 ruruby/src/builtin/string.rs       |   4 +
 ruruby/src/value/hash.rs           |   4 +-
 ruruby/src/value/rvalue.rs         |  11 +++
 ruruby/src/vm/executor.rs          |   5 +-
 ruruby/src/vm/executor/ops.rs      | 145 ++++++++++++++++++-----------
 ruruby/src/vm/executor/opt_core.rs |  12 +--
 13 files changed, 244 insertions(+), 145 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index e57dd33..c59cca3 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -53,34 +53,25 @@ pub(crate) fn rem_bignum(lhsb: &BigInt, rhs: Value) -> VMResult {
 }
 
 pub(crate) fn rem_float(lhsf: f64, rhs: Value) -> VMResult {
-    let val = if let Some(rhs) = rhs.as_fixnum() {
-        if rhs.is_zero() {
-            return Err(RubyError::zero_div("Divided by zero."));
-        }
-        Value::float(rem_floorf64(lhsf, rhs as f64))
+    let rhsf = if let Some(rhs) = rhs.as_fixnum() {
+        rhs as f64
     } else if let Some(rhs) = rhs.as_float() {
-        if rhs.is_zero() {
-            return Err(RubyError::zero_div("Divided by zero."));
-        }
-        Value::float(rem_floorf64(lhsf, rhs))
+        rhs
     } else if let Some(rhs) = rhs.as_bignum() {
-        if rhs.is_zero() {
-            return Err(RubyError::zero_div("Divided by zero."));
-        }
-        Value::float(rem_floorf64(lhsf, rhs.to_f64().unwrap()))
+        rhs.to_f64().unwrap()
     } else {
-        unreachable!()
+        return Err(VMError::cant_coerse(rhs, "Float"));
     };
-    Ok(val)
+    Ok(Value::float(rem_floorf64(lhsf, rhsf)))
 }
 
+/// Modulo whose result has the sign of `other`.
 pub(crate) fn rem_floorf64(self_: f64, other: f64) -> f64 {
-    if self_ > 0.0 && other < 0.0 {
-        ((self_ - 1.0) % other) + other + 1.0
-    } else if self_ < 0.0 && other > 0.0 {
-        ((self_ + 1.0) % other) + other - 1.0
+    let rem = self_ % other;
+    if rem != 0.0 && (rem < 0.0) != (other < 0.0) {
+        rem + other
     } else {
-        self_ % other
+        rem
     }
 }
 
diff --git a/ruruby/src/builtin/comparable.rs b/ruruby/src/builtin/comparable.rs
index f69dff2..f8ba733 100644
--- a/ruruby/src/builtin/comparable.rs
+++ b/ruruby/src/builtin/comparable.rs
@@ -27,56 +27,38 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(b))
 }
 
-fn le(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+/// The result of `<=>`, which has to be an Integer.
+fn compare(vm: &mut VM, self_val: Value, args: &Args2) -> Result<i64, RubyError> {
     args.check_args_num(1)?;
+    let other = vm[0];
     let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i <= 0 => true,
-            _ => false,
-        },
-        None => false,
-    };
-    Ok(Value::bool(b))
+    res.as_fixnum().ok_or_else(|| {
+        RubyError::argument(format!(
+            "comparison of {} with {:?} failed",
+            self_val.get_class_name(),
+            other
+        ))
+    })
+}
+
+fn le(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    let i = compare(vm, self_val, args)?;
+    Ok(Value::bool(i <= 0))
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i < 0 => true,
-            _ => false,
-        },
-        None => unreachable!(),
-    };
-    Ok(Value::bool(b))
+    let i = compare(vm, self_val, args)?;
+    Ok(Value::bool(i < 0))
 }
 
 fn ge(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i >= 0 => true,
-            _ => false,
-        },
-        None => false,
-    };
-    Ok(Value::bool(b))
+    let i = compare(vm, self_val, args)?;
+    Ok(Value::bool(i >= 0))
 }
 
 fn gt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i > 0 => true,
-            _ => false,
-        },
-        None => unreachable!(),
-    };
-    Ok(Value::bool(b))
+    let i = compare(vm, self_val, args)?;
+    Ok(Value::bool(i > 0))
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index d050653..9c37169 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -7,7 +7,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "%", rem);
     class.add_builtin_method_by_str(globals, "div", quotient);
     class.add_builtin_method_by_str(globals, "**", exp);
-    class.add_builtin_method_by_str(globals, "mod", exp);
+    class.add_builtin_method_by_str(globals, "mod", rem);
+    class.add_builtin_method_by_str(globals, "-@", minus);
     class.add_builtin_method_by_str(globals, "<=>", cmp);
     class.add_builtin_method_by_str(globals, "floor", floor);
     class.add_builtin_method_by_str(globals, "abs", abs);
@@ -53,6 +54,11 @@ fn infinite(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     })
 }
 
+fn minus(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    Ok(Value::float(-self_val.as_float().unwrap()))
+}
+
 fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let f = self_val.as_float().unwrap();
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 6808132..857f0ba 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -5,6 +5,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     globals.set_toplevel_constant("Hash", class);
     class.add_builtin_method_by_str(globals, "to_s", inspect);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
+    class.add_builtin_method_by_str(globals, "[]", get_elem);
+    class.add_builtin_method_by_str(globals, "[]=", set_elem);
     class.add_builtin_method_by_str(globals, "clear", clear);
     class.add_builtin_method_by_str(globals, "clone", clone);
     class.add_builtin_method_by_str(globals, "dup", clone);
@@ -59,6 +61,19 @@ fn inspect(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::string(s))
 }
 
+fn get_elem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let hash = self_val.as_hash().unwrap();
+    Ok(hash.get(&vm[0]).cloned().unwrap_or_default())
+}
+
+fn set_elem(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(2)?;
+    let val = vm[1];
+    self_val.as_mut_hash().unwrap().insert(vm[0], val);
+    Ok(val)
+}
+
 fn clear(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let hash = self_val.as_mut_hash().unwrap();
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index f57f632..85df6de 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -132,20 +132,14 @@ fn quotient(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
-    match vm[0].to_real() {
-        Some(rhs) => Ok(Value::bool(lhs == rhs)),
-        _ => Ok(Value::bool(false)),
-    }
+    let b = vm.eval_eq2(vm[0], self_val)?;
+    Ok(Value::bool(b))
 }
 
 fn neq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
-    match vm[0].to_real() {
-        Some(rhs) => Ok(Value::bool(lhs != rhs)),
-        _ => Ok(Value::bool(true)),
-    }
+    let b = vm.eval_eq2(vm[0], self_val)?;
+    Ok(Value::bool(!b))
 }
 
 fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index cafe312..9ba9ebd 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -45,7 +45,7 @@ fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = real(self_val)?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => Ok((lhs + rhs).into_val()),
@@ -62,7 +62,7 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = real(self_val)?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => Ok((lhs - rhs).into_val()),
@@ -79,7 +79,7 @@ fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = real(self_val)?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => Ok((lhs * rhs).into_val()),
@@ -96,11 +96,13 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = real(self_val)?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => {
-            if rhs.is_zero() {
+            // Only integers can not be divided by zero.
+            let float = matches!(lhs, Real::Float(_)) || matches!(rhs, Real::Float(_));
+            if rhs.is_zero() && !float {
                 return Err(RubyError::zero_div("Divided by zero."));
             }
             Ok((lhs / rhs).into_val())
@@ -120,12 +122,21 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
+fn real(self_val: Value) -> Result<Real, RubyError> {
+    self_val.to_real().ok_or_else(|| {
+        RubyError::argument(format!(
+            "{} has no numeric value.",
+            self_val.get_class_name()
+        ))
+    })
+}
+
 macro_rules! define_cmp {
     ($op:ident) => {
         fn $op(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             args.check_args_num(1)?;
             let arg0 = vm[0];
-            let lhs = self_val.to_real().unwrap();
+            let lhs = real(self_val)?;
             match arg0.to_real() {
                 Some(rhs) => return Ok(Value::bool(lhs.$op(&rhs))),
                 _ => {
@@ -144,8 +155,33 @@ define_cmp!(ge);
 define_cmp!(gt);
 define_cmp!(le);
 define_cmp!(lt);
-define_cmp!(eq);
-define_cmp!(ne);
+
+fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = eq_num(vm, self_val, vm[0])?;
+    Ok(Value::bool(b))
+}
+
+fn ne(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = eq_num(vm, self_val, vm[0])?;
+    Ok(Value::bool(!b))
+}
+
+fn eq_num(vm: &mut VM, lhs: Value, rhs: Value) -> Result<bool, RubyError> {
+    if lhs.to_real().is_none() {
+        return Ok(lhs.id() == rhs.id());
+    }
+    if rhs.to_real().is_none() && !matches!(rhs.as_rvalue(), Some(o) if o.kind() == ObjKind::ORDINARY)
+    {
+        return Err(RubyError::argument(format!(
+            "Comparison of {} with {} failed.",
+            lhs.get_class_name(),
+            rhs.get_class_name()
+        )));
+    }
+    vm.eval_eq2(rhs, lhs)
+}
 
 #[cfg(test)]
 mod tests {
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index b42177d..5c055dc 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -12,7 +12,8 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "to_s", to_s);
     object.add_builtin_method_by_str(globals, "inspect", inspect);
     object.add_builtin_method_by_str(globals, "equal?", equal);
-    object.add_builtin_method_by_str(globals, "==", equal);
+    object.add_builtin_method_by_str(globals, "==", eq);
+    object.add_builtin_method_by_str(globals, "!=", ne);
     object.add_builtin_method_by_str(globals, "===", teq);
     object.add_builtin_method_by_str(globals, "=~", match_); // This method is deprecated from Ruby 2.6.
     object.add_builtin_method_by_str(globals, "<=>", cmp);
@@ -193,6 +194,31 @@ fn equal(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(self_val.id() == vm[0].id()))
 }
 
+fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let other = vm[0];
+    let b = self_val.id() == other.id()
+        || match (self_val.as_rvalue(), other.as_rvalue()) {
+            (Some(lhs), Some(rhs)) if lhs.kind() == rhs.kind() => match lhs.kind() {
+                ObjKind::STRING
+                | ObjKind::ARRAY
+                | ObjKind::HASH
+                | ObjKind::RANGE
+                | ObjKind::REGEXP
+                | ObjKind::TIME => vm.eval_eq_contents(other, self_val)?,
+                _ => false,
+            },
+            _ => false,
+        };
+    Ok(Value::bool(b))
+}
+
+fn ne(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = vm.eval_eq2(vm[0], self_val)?;
+    Ok(Value::bool(!b))
+}
+
 fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let b = vm.eval_eq2(vm[0], self_val)?;
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 95fd4d4..3613d41 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -116,6 +116,10 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         i if i < 0 => return Err(RubyError::argument("Negative argument.")),
         i => i as usize,
     };
+    let len = lhs.as_bytes().len() as u128 * count as u128;
+    if len > i32::MAX as u128 {
+        return Err(RubyError::argument("argument too big"));
+    }
 
     let res = match lhs {
         RString::Str(s) => Value::string(s.repeat(count)),
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index e250bf5..213d99a 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -314,7 +314,9 @@ impl HashInfo {
             _ => {
                 let mut result = "".to_string();
                 let mut first = true;
-                for (k, v) in self.iter() {
+                // `inspect` of an element may change the hash.
+                let pairs: Vec<(Value, Value)> = self.iter().collect();
+                for (k, v) in pairs {
                     let k_inspect = vm.val_inspect(k)?;
                     let v_inspect = vm.val_inspect(v)?;
                     result = if first {
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 773b38a..b11268e 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -797,6 +797,17 @@ impl RValue {
     ///
     /// If the objetct has a sigleton class, return the singleton class.
     #[inline(always)]
+    /// Whether the object is a direct instance of the built-in class of its kind,
+    /// so that no subclass and no singleton class can have its own methods for it.
+    pub(crate) fn is_plain(&self) -> bool {
+        match self.kind() {
+            ObjKind::ARRAY => self.class == BuiltinClass::array(),
+            ObjKind::HASH => self.class == BuiltinClass::hash(),
+            ObjKind::STRING => self.class == BuiltinClass::string(),
+            _ => true,
+        }
+    }
+
     pub(crate) fn class(&self) -> Module {
         self.class
     }
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index d292466..9f69808 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -887,12 +887,11 @@ impl VM {
             RV::Symbol(sym) => format!(":{:?}", sym),
             RV::Object(oref) => match oref.kind() {
                 ObjKind::INVALID => "[Invalid]".to_string(),
-                ObjKind::STRING => oref.string().inspect(),
+                ObjKind::STRING if oref.is_plain() => oref.string().inspect(),
                 ObjKind::RANGE => oref.range().inspect(self)?,
                 ObjKind::MODULE | ObjKind::CLASS => oref.module().inspect(),
                 ObjKind::REGEXP => format!("/{}/", oref.regexp().as_str().to_string()),
-                ObjKind::ORDINARY => oref.inspect()?,
-                ObjKind::HASH => oref.rhash().to_s(self)?,
+                ObjKind::HASH if oref.is_plain() => oref.rhash().to_s(self)?,
                 ObjKind::COMPLEX => format!("{:?}", oref.complex()),
                 _ => {
                     let id = IdentId::get_id("inspect");
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 6619cf2..d5dd8a8 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -170,11 +170,12 @@ impl VM {
                 return Ok(VMResKind::Return(val));
             }
         }
-        if let Some(mut ainfo) = lhs.as_array() {
-            ainfo.push(rhs);
-            Ok(VMResKind::Return(lhs))
-        } else {
-            self.invoke_send1(IdentId::_SHL, lhs, rhs)
+        match lhs.as_array() {
+            Some(mut ainfo) if lhs.rvalue().is_plain() => {
+                ainfo.push(rhs);
+                Ok(VMResKind::Return(lhs))
+            }
+            _ => self.invoke_send1(IdentId::_SHL, lhs, rhs),
         }
     }
 
@@ -251,10 +252,9 @@ impl VM {
 
 macro_rules! eval_cmp {
     ($func_name:ident, $op:ident, $id:ident) => {
-        pub(super) fn $func_name(&mut self) -> Result<bool, RubyError> {
+        pub(super) fn $func_name(&mut self) -> VMResult {
             let (lhs, rhs) = self.stack.pop2();
-            let res = eval_cmp2!(self, rhs, lhs, $op, IdentId::$id);
-            res
+            eval_cmp2!(self, rhs, lhs, $op, IdentId::$id)
         }
     };
 }
@@ -263,41 +263,37 @@ macro_rules! eval_cmp2 {
     ($vm:ident, $rhs:expr, $lhs:expr, $op:ident, $id:expr) => {{
         if let Some(lhsi) = $lhs.as_fixnum() {
             if let Some(rhsi) = $rhs.as_fixnum() {
-                Ok(lhsi.$op(&rhsi))
+                Ok(Value::bool(lhsi.$op(&rhsi)))
             } else if let Some(rhsf) = $rhs.as_flonum() {
-                Ok(Real::Integer(lhsi).$op(&Real::Float(rhsf)))
+                Ok(Value::bool(Real::Integer(lhsi).$op(&Real::Float(rhsf))))
             } else {
-                let v = $vm.eval_send1($id, $lhs, $rhs)?;
-                Ok(v.to_bool())
+                $vm.eval_send1($id, $lhs, $rhs)
             }
         } else if let Some(lhsf) = $lhs.as_flonum() {
             if let Some(rhsi) = $rhs.as_fixnum() {
-                Ok(Real::Float(lhsf).$op(&Real::Integer(rhsi)))
+                Ok(Value::bool(Real::Float(lhsf).$op(&Real::Integer(rhsi))))
             } else if let Some(rhsf) = $rhs.as_flonum() {
-                Ok(lhsf.$op(&rhsf))
+                Ok(Value::bool(lhsf.$op(&rhsf)))
             } else {
-                let v = $vm.eval_send1($id, $lhs, $rhs)?;
-                Ok(v.to_bool())
+                $vm.eval_send1($id, $lhs, $rhs)
             }
         } else {
-            let v = $vm.eval_send1($id, $lhs, $rhs)?;
-            Ok(v.to_bool())
+            $vm.eval_send1($id, $lhs, $rhs)
         }
     }};
 }
 
 macro_rules! eval_cmp_i {
     ($func_name:ident, $op:ident, $id:ident) => {
-        pub(super) fn $func_name(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
+        pub(super) fn $func_name(&mut self, lhs: Value, i: i32) -> VMResult {
             if let Some(lhsi) = lhs.as_fixnum() {
                 let i = i as i64;
-                Ok(lhsi.$op(&i))
+                Ok(Value::bool(lhsi.$op(&i)))
             } else if let Some(lhsf) = lhs.as_flonum() {
                 let i = i as f64;
-                Ok(lhsf.$op(&i))
+                Ok(Value::bool(lhsf.$op(&i)))
             } else {
-                let v = self.eval_send1(IdentId::$id, lhs, Value::fixnum(i as i64))?;
-                Ok(v.to_bool())
+                self.eval_send1(IdentId::$id, lhs, Value::fixnum(i as i64))
             }
         }
     };
@@ -309,7 +305,9 @@ impl VM {
         let b = match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
                 ObjKind::REGEXP => self.teq_regexp(oref, rhs)?,
-                ObjKind::STRING | ObjKind::ARRAY | ObjKind::HASH => self.eval_eq2(rhs, lhs)?,
+                ObjKind::STRING | ObjKind::ARRAY | ObjKind::HASH if oref.is_plain() => {
+                    self.eval_eq2(rhs, lhs)?
+                }
                 _ => return self.invoke_send1(IdentId::_TEQ, lhs, rhs),
             },
             None => self.eval_eq2(rhs, lhs)?,
@@ -335,7 +333,9 @@ impl VM {
         match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
                 ObjKind::REGEXP => self.teq_regexp(oref, rhs),
-                ObjKind::STRING | ObjKind::ARRAY | ObjKind::HASH => self.eval_eq2(rhs, lhs),
+                ObjKind::STRING | ObjKind::ARRAY | ObjKind::HASH if oref.is_plain() => {
+                    self.eval_eq2(rhs, lhs)
+                }
                 _ => {
                     let v = self.eval_send1(IdentId::_TEQ, lhs, rhs)?;
                     Ok(v.to_bool())
@@ -380,18 +380,31 @@ impl VM {
         if lhs.id() == rhs.id() {
             match lhs.rvalue().kind() {
                 ObjKind::ORDINARY => {}
+                _ if !lhs.rvalue().is_plain() => {}
                 _ => return Ok(true),
             }
         };
         if rhs.is_packed_value() {
             return match lhs.rvalue().kind() {
-                ObjKind::ORDINARY | ObjKind::COMPLEX => {
+                kind if kind == ObjKind::ORDINARY
+                    || kind == ObjKind::COMPLEX
+                    || !lhs.rvalue().is_plain() =>
+                {
                     let v = self.eval_send1(IdentId::_EQ, lhs, rhs)?;
                     Ok(v.to_bool())
                 }
                 _ => Ok(false),
             };
         }
+        if !lhs.rvalue().is_plain() {
+            let v = self.eval_send1(IdentId::_EQ, lhs, rhs)?;
+            return Ok(v.to_bool());
+        }
+        self.eval_eq_contents(rhs, lhs)
+    }
+
+    /// Equality of two objects which the kind of the objects determines.
+    pub(crate) fn eval_eq_contents(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
         let (lhsr, rhsr) = (lhs.rvalue(), rhs.rvalue());
         match (lhsr.kind(), rhsr.kind()) {
             (ObjKind::COMPLEX, ObjKind::COMPLEX) => {
@@ -437,13 +450,34 @@ impl VM {
         }
     }
 
-    pub(super) fn eval_eq(&mut self) -> Result<bool, RubyError> {
+    /// The value of `lhs == rhs`, which a method of `lhs` may determine.
+    fn eval_eq_value(&mut self, rhs: Value, lhs: Value) -> VMResult {
+        match lhs.as_rvalue() {
+            Some(oref) if oref.kind() == ObjKind::ORDINARY || !oref.is_plain() => {
+                self.eval_send1(IdentId::_EQ, lhs, rhs)
+            }
+            _ => Ok(Value::bool(self.eval_eq2(rhs, lhs)?)),
+        }
+    }
+
+    /// The value of `lhs != rhs`, which a method of `lhs` may determine.
+    fn eval_ne_value(&mut self, rhs: Value, lhs: Value) -> VMResult {
+        match lhs.as_rvalue() {
+            Some(oref) if oref.kind() == ObjKind::ORDINARY || !oref.is_plain() => {
+                self.eval_send1(IdentId::_NEQ, lhs, rhs)
+            }
+            _ => Ok(Value::bool(!self.eval_eq2(rhs, lhs)?)),
+        }
+    }
+
+    pub(super) fn eval_eq(&mut self) -> VMResult {
         let (lhs, rhs) = self.stack_pop2();
-        self.eval_eq2(rhs, lhs)
+        self.eval_eq_value(rhs, lhs)
     }
 
-    pub(super) fn eval_ne(&mut self) -> Result<bool, RubyError> {
-        Ok(!self.eval_eq()?)
+    pub(super) fn eval_ne(&mut self) -> VMResult {
+        let (lhs, rhs) = self.stack_pop2();
+        self.eval_ne_value(rhs, lhs)
     }
 
     eval_cmp!(eval_ge, ge, _GE);
@@ -452,29 +486,28 @@ impl VM {
     eval_cmp!(eval_lt, lt, _LT);
 
     pub(crate) fn eval_gt2(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
-        eval_cmp2!(self, rhs, lhs, gt, IdentId::_GT)
+        let res: VMResult = eval_cmp2!(self, rhs, lhs, gt, IdentId::_GT);
+        Ok(res?.to_bool())
     }
 
-    pub(super) fn eval_eqi(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
-        let res = if let Some(lhsi) = lhs.as_fixnum() {
-            lhsi == i as i64
+    pub(super) fn eval_eqi(&mut self, lhs: Value, i: i32) -> VMResult {
+        if let Some(lhsi) = lhs.as_fixnum() {
+            Ok(Value::bool(lhsi == i as i64))
         } else if let Some(lhsf) = lhs.as_flonum() {
-            lhsf == i as f64
+            Ok(Value::bool(lhsf == i as f64))
         } else {
-            match lhs.unpack() {
-                RV::Integer(lhs) => lhs == i as i64,
-                RV::Float(lhs) => lhs == i as f64,
-                _ => {
-                    let v = self.eval_send1(IdentId::_EQ, lhs, Value::integer(i as i64))?;
-                    return Ok(v.to_bool());
-                }
-            }
-        };
-
-        Ok(res)
+            self.eval_eq_value(Value::fixnum(i as i64), lhs)
+        }
     }
-    pub(super) fn eval_nei(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
-        Ok(!self.eval_eqi(lhs, i)?)
+
+    pub(super) fn eval_nei(&mut self, lhs: Value, i: i32) -> VMResult {
+        if let Some(lhsi) = lhs.as_fixnum() {
+            Ok(Value::bool(lhsi != i as i64))
+        } else if let Some(lhsf) = lhs.as_flonum() {
+            Ok(Value::bool(lhsf != i as f64))
+        } else {
+            self.eval_ne_value(Value::fixnum(i as i64), lhs)
+        }
     }
 
     eval_cmp_i!(eval_gei, ge, _GE);
@@ -504,11 +537,11 @@ impl VM {
         match receiver.as_mut_rvalue() {
             Some(oref) => {
                 match oref.kind() {
-                    ObjKind::ARRAY => {
+                    ObjKind::ARRAY if oref.is_plain() => {
                         oref.array_mut().set_elem1(idx, val)?;
                         return Ok(VMResKind::Return(val));
                     }
-                    ObjKind::HASH => {
+                    ObjKind::HASH if oref.is_plain() => {
                         oref.rhash_mut().insert(idx, val);
                         return Ok(VMResKind::Return(val));
                     }
@@ -526,11 +559,11 @@ impl VM {
         match receiver.as_mut_rvalue() {
             Some(oref) => {
                 match oref.kind() {
-                    ObjKind::ARRAY => {
+                    ObjKind::ARRAY if oref.is_plain() => {
                         oref.array_mut().set_elem_imm(idx as usize, val);
                         return Ok(VMResKind::Return(val));
                     }
-                    ObjKind::HASH => {
+                    ObjKind::HASH if oref.is_plain() => {
                         oref.rhash_mut().insert(Value::fixnum(idx as i64), val);
                         return Ok(VMResKind::Return(val));
                     }
@@ -551,11 +584,11 @@ impl VM {
     pub(super) fn invoke_get_index(&mut self, receiver: Value, idx: Value) -> InvokeResult {
         if let Some(oref) = receiver.as_rvalue() {
             match oref.kind() {
-                ObjKind::ARRAY => {
+                ObjKind::ARRAY if oref.is_plain() => {
                     let val = oref.array().get_elem1(idx)?;
                     return Ok(VMResKind::Return(val));
                 }
-                ObjKind::HASH => {
+                ObjKind::HASH if oref.is_plain() => {
                     let val = oref.rhash().get(&idx).cloned().unwrap_or_default();
                     return Ok(VMResKind::Return(val));
                 }
@@ -568,11 +601,11 @@ impl VM {
     pub(super) fn invoke_get_index_imm(&mut self, receiver: Value, idx: u32) -> InvokeResult {
         match receiver.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::ARRAY => {
+                ObjKind::ARRAY if oref.is_plain() => {
                     let val = oref.array().get_elem_imm(idx as usize);
                     return Ok(VMResKind::Return(val));
                 }
-                ObjKind::HASH => {
+                ObjKind::HASH if oref.is_plain() => {
                     let val = oref
                         .rhash()
                         .get(&Value::fixnum(idx as i64))
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index c08d33a..5cd4a92 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -41,7 +41,7 @@ impl VM {
             #[cfg(not(tarpaulin_include))]
             macro_rules! cmp {
                 ($eval:ident) => {{
-                    let val = Value::bool(self.$eval()?);
+                    let val = self.$eval()?;
                     self.stack_push(val);
                 }};
             }
@@ -51,7 +51,7 @@ impl VM {
                 ($eval:ident) => {{
                     let lhs = self.stack_pop();
                     let i = self.pc.read32() as i32;
-                    let v = Value::bool(self.$eval(lhs, i)?);
+                    let v = self.$eval(lhs, i)?;
                     self.stack_push(v);
                 }};
             }
@@ -59,8 +59,8 @@ impl VM {
             #[cfg(not(tarpaulin_include))]
             macro_rules! jmp_cmp {
                 ($eval:ident) => {{
-                    let b = self.$eval()?;
-                    self.jmp_cond(b);
+                    let v = self.$eval()?;
+                    self.jmp_cond(v.to_bool());
                 }};
             }
 
@@ -69,8 +69,8 @@ impl VM {
                 ($eval:ident) => {{
                     let lhs = self.stack_pop();
                     let i = self.pc.read32() as i32;
-                    let b = self.$eval(lhs, i)?;
-                    self.jmp_cond(b);
+                    let v = self.$eval(lhs, i)?;
+                    self.jmp_cond(v.to_bool());
                 }};
             }
 
-- 
2.43.0


From 4175d107ef30e854a7a29b86483095b9da95ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:06 +0000
Subject: [PATCH 29/57] fix: operator precedence of <=>, commands whose
 arguments start with a space, a unary operator or a nested command, safe
 navigation and yield arguments parse as in Ruby

---
 ruruby-parse/src/parser/expression.rs   | 142 +++++++++++++++++-------
 ruruby-parse/src/parser/flow_control.rs |   3 +
 ruruby-parse/src/parser/literals.rs     |   8 ++
 ruruby/src/codegen/send.rs              |   2 +
 4 files changed, 115 insertions(+), 40 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 05f9be3..8c9fb96 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -5,6 +5,13 @@ use super::*;
 impl<'a, A: LocalsContext> Parser<'a, A> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, ParseErr> {
         // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
+        let old = self.reset_suppression();
+        let res = self.parse_comp_stmt_body();
+        self.restore_suppression(old);
+        res
+    }
+
+    fn parse_comp_stmt_body(&mut self) -> Result<Node, ParseErr> {
         self.peek()?;
         let loc = self.loc();
         let mut nodes = vec![];
@@ -25,6 +32,25 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         Ok(node)
     }
 
+    /// Enter a bracketed construct, which the context of the brackets does not restrict.
+    pub(super) fn reset_suppression(&mut self) -> (bool, bool, bool) {
+        let old = (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        );
+        self.suppress_acc_assign = false;
+        self.suppress_mul_assign = false;
+        self.suppress_do_block = false;
+        old
+    }
+
+    pub(super) fn restore_suppression(&mut self, old: (bool, bool, bool)) {
+        self.suppress_acc_assign = old.0;
+        self.suppress_mul_assign = old.1;
+        self.suppress_do_block = old.2;
+    }
+
     fn parse_stmt(&mut self) -> Result<Node, ParseErr> {
         // STMT : EXPR
         // | ALIAS-STMT
@@ -162,15 +188,26 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         term: impl Into<Option<Punct>>,
     ) -> Result<Vec<Node>, ParseErr> {
         let term = term.into();
-        let old = self.suppress_mul_assign;
+        let old = (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        );
+        if term.is_some() {
+            self.reset_suppression();
+        }
         // multiple assignment must be suppressed in parsing arg list.
         self.suppress_mul_assign = true;
+        let res = self.parse_mul_assign_rhs_body(term);
+        self.restore_suppression(old);
+        res
+    }
 
+    fn parse_mul_assign_rhs_body(&mut self, term: Option<Punct>) -> Result<Vec<Node>, ParseErr> {
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
-                    self.suppress_mul_assign = old;
                     return Ok(args);
                 }
             };
@@ -187,7 +224,6 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 break;
             }
         }
-        self.suppress_mul_assign = old;
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -215,7 +251,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         }
         if self.consume_punct_no_term(Punct::Assign)? {
             self.check_lhs(&lhs)?;
-            let mrhs = self.parse_mul_assign_rhs(None)?;
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -284,6 +320,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         if self.consume_punct_no_term(Punct::Eq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Eq, lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Cmp, lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Ne)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Ne, lhs, rhs))
@@ -321,9 +360,6 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Lt, lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Cmp, lhs, rhs);
             } else {
                 break;
             }
@@ -480,25 +516,38 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_exponent(&mut self) -> Result<Node, ParseErr> {
         let lhs = self.parse_unary()?;
         if self.consume_punct_no_term(Punct::DMul)? {
-            let rhs = self.parse_exponent()?;
+            let rhs = if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+                self.parse_unary_minus()?
+            } else {
+                self.parse_exponent()?
+            };
             Ok(Node::new_binop(BinOp::Exp, lhs, rhs))
         } else {
             Ok(lhs)
         }
     }
 
+    /// Operand of `!`, `~` and `+`.
+    fn parse_unary_operand(&mut self) -> Result<Node, ParseErr> {
+        if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+            self.parse_unary_minus()
+        } else {
+            self.parse_unary()
+        }
+    }
+
     fn parse_unary(&mut self) -> Result<Node, ParseErr> {
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Not)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Not, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Plus)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else {
             self.parse_method_call()
@@ -506,17 +555,18 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, ParseErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-        let mut node = self.parse_primary(false)?;
+        let mut node = if self.consume_reserved(Reserved::Yield)? {
+            self.parse_yield()?
+        } else {
+            self.parse_primary(false)?
+        };
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
-            } else if self.consume_punct_no_term(Punct::SafeNav)? {
+            } else if self.consume_punct(Punct::SafeNav)? {
                 self.parse_primary_method(node, true)?
             } else if self.consume_punct_no_term(Punct::Scope)? {
                 let loc = self.prev_loc();
@@ -539,19 +589,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     fn parse_yield(&mut self) -> Result<Node, ParseErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
-            return Ok(Node::new_yield(ArgList::default(), loc));
-        };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.consume_punct_no_term(Punct::LParen)? {
             self.parse_arglist(Punct::RParen)?
-        } else {
+        } else if self.is_command() {
             self.parse_arglist(None)?
+        } else {
+            ArgList::default()
         };
         Ok(Node::new_yield(args, loc))
     }
@@ -587,22 +630,17 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
-            let node = Node::new_send(receiver, IdentId::get_id("call"), arglist, false, loc);
+            let id = IdentId::get_id("call");
+            let node = Node::new_send(receiver, id, arglist, safe_nav, loc);
             return Ok(node);
         };
         let (id, loc) = self.lexer.read_method_name(false)?;
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist_block(Punct::RParen)?
+        } else if self.is_command() {
+            self.parse_arglist_block(None)?
         } else {
-            if self.is_command() {
-                return Ok(Node::new_send(
-                    receiver,
-                    id,
-                    self.parse_arglist_block(None)?,
-                    false,
-                    loc,
-                ));
-            }
             match self.parse_block()? {
                 Some(block) => ArgList::with_block(block),
                 None => ArgList::default(),
@@ -705,7 +743,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     },
                     TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
                     TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                    _ => Err(error_unexpected(loc, "Unexpected '-'.")),
                 },
                 Punct::LParen => {
                     let node = self.parse_comp_stmt()?;
@@ -773,7 +811,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 Reserved::Begin => self.parse_begin(),
                 Reserved::Defined => {
                     if self.consume_punct_no_term(Punct::LParen)? {
+                        let old = self.reset_suppression();
                         let node = self.parse_expr()?;
+                        self.restore_suppression(old);
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
                     } else {
@@ -825,6 +865,15 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, ParseErr> {
         let punct = punct.into();
+        let old = self.reset_suppression();
+        self.suppress_mul_assign = punct.is_some();
+        self.suppress_do_block = punct.is_none() && old.2;
+        let res = self.parse_arglist_body(punct);
+        self.restore_suppression(old);
+        res
+    }
+
+    fn parse_arglist_body(&mut self, punct: Option<Punct>) -> Result<ArgList, ParseErr> {
         let mut arglist = ArgList::default();
         loop {
             if let Some(punct) = punct {
@@ -1015,8 +1064,15 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             match tok.kind {
                 TokenKind::LineTerm => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow => true,
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
                     Punct::Colon
+                    | Punct::Question
+                    | Punct::DMul
                     | Punct::Plus
                     | Punct::Minus
                     | Punct::Mul
@@ -1036,6 +1092,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::When
+                        | Reserved::In
+                        | Reserved::Rescue
+                        | Reserved::Ensure
                         | Reserved::End
                 ),
                 _ => true,
diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index 4a1bc6a..4213a98 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -82,7 +82,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = true;
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 6ff5696..d6596cb 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -162,6 +162,14 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, ParseErr> {
+        let old = self.reset_suppression();
+        self.suppress_mul_assign = true;
+        let res = self.parse_hash_literal_body();
+        self.restore_suppression(old);
+        res
+    }
+
+    fn parse_hash_literal_body(&mut self) -> Result<Node, ParseErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
         loop {
diff --git a/ruruby/src/codegen/send.rs b/ruruby/src/codegen/send.rs
index 918de5e..b2e1194 100644
--- a/ruruby/src/codegen/send.rs
+++ b/ruruby/src/codegen/send.rs
@@ -32,8 +32,10 @@ impl Codegen {
         }
         // `nil&.method` is nil, and its arguments are not evaluated.
         let src = if safe_nav {
+            // nil is the left-hand side: no method of the receiver is called.
             iseq.gen_dup(1);
             iseq.gen_push_nil();
+            iseq.gen_topn(1);
             iseq.push(Inst::NE);
             Some(iseq.gen_jmp_if_f())
         } else {
-- 
2.43.0


From 07541f6305c6baf230d15d90a636eece7223e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:55 +0000
Subject: [PATCH 30/57] fix: case/when with duplicate, float, far apart or
 splatted values and several conditions without a subject

---
 ruruby/src/codegen.rs              | 32 +++++++-------
 ruruby/src/globals.rs              | 19 ++++----
 ruruby/src/vm/executor/ops.rs      | 71 ++++++++++++++++++++++++++++++
 ruruby/src/vm/executor/opt_core.rs |  8 +---
 4 files changed, 101 insertions(+), 29 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 3828491..a8a23ab 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1270,9 +1270,7 @@ impl Codegen {
                                             opt_max = i
                                         };
                                     }
-                                    NodeKind::Bignum(_)
-                                    | NodeKind::Float(_)
-                                    | NodeKind::Symbol(_)
+                                    NodeKind::Symbol(_)
                                     | NodeKind::String(_)
                                     | NodeKind::Bool(_)
                                     | NodeKind::Nil => opt_flag2 = false,
@@ -1286,12 +1284,16 @@ impl Codegen {
                                 break;
                             }
                         }
+                        // A table of offsets is used only if the labels are dense enough.
+                        let label_num: usize = when_.iter().map(|b| b.when.len()).sum();
+                        let opt_flag2 = opt_flag2
+                            && matches!(opt_max.checked_sub(opt_min), Some(d) if d < 256 + 4 * label_num as i64);
                         if opt_flag && opt_flag2 {
                             //eprintln!("{} {}", opt_min, opt_max);
                             let map_id = globals.case_dispatch2.new_entry();
                             let start = iseq.gen_opt_case2(map_id);
                             self.save_cur_loc(iseq);
-                            let mut map = FxHashMap::default();
+                            let mut map = FxIndexMap::default();
                             for branch in when_ {
                                 let disp = start - iseq.current();
                                 for elem in &branch.when {
@@ -1299,7 +1301,8 @@ impl Codegen {
                                         NodeKind::Integer(i) => *i,
                                         _ => unreachable!(),
                                     };
-                                    map.insert(i, disp);
+                                    // The first label of the same value takes precedence.
+                                    map.entry(i).or_insert(disp);
                                 }
                                 self.gen(globals, iseq, *branch.body, use_value)?;
                                 end.push(iseq.gen_jmp());
@@ -1309,7 +1312,7 @@ impl Codegen {
                             let mut vec = vec![default_disp; (opt_max - opt_min + 1) as usize];
                             map.iter()
                                 .for_each(|(i, disp)| vec[(*i - opt_min) as usize] = *disp);
-                            *case_map = (opt_min, opt_max, vec);
+                            *case_map = (opt_min, opt_max, vec, map.into_iter().collect());
 
                             iseq.write_disp_from_cur(start);
                         } else if opt_flag {
@@ -1322,15 +1325,13 @@ impl Codegen {
                                 for elem in &branch.when {
                                     let k = match &elem.kind {
                                         NodeKind::Integer(i) => Value::integer(*i),
-                                        NodeKind::Bignum(n) => Value::bignum(n.clone()),
-                                        NodeKind::Float(f) => Value::float(*f),
                                         NodeKind::Symbol(sym) => Value::symbol(*sym),
                                         NodeKind::String(str) => Value::string(str),
                                         NodeKind::Bool(b) => Value::bool(*b),
                                         NodeKind::Nil => Value::nil(),
                                         _ => unreachable!(),
                                     };
-                                    map.insert(HashKey(k), disp);
+                                    map.entry(HashKey(k)).or_insert(disp);
                                 }
                                 self.gen(globals, iseq, *branch.body, use_value)?;
                                 end.push(iseq.gen_jmp());
@@ -1378,19 +1379,20 @@ impl Codegen {
                     }
                     None => {
                         for branch in when_ {
-                            let mut next = vec![];
+                            let mut jmp_dest = vec![];
                             for elem in branch.when {
                                 let loc = elem.loc;
                                 self.gen(globals, iseq, elem, true)?;
                                 self.save_loc(iseq, loc);
-                                next.push(iseq.gen_jmp_if_f());
+                                jmp_dest.push(iseq.gen_jmp_if_t());
                             }
-                            //next = Some(iseq.gen_jmp());
-                            self.gen(globals, iseq, *branch.body, use_value)?;
-                            end.push(iseq.gen_jmp());
-                            for dest in next {
+                            let next = iseq.gen_jmp();
+                            for dest in jmp_dest {
                                 iseq.write_disp_from_cur(dest);
                             }
+                            self.gen(globals, iseq, *branch.body, use_value)?;
+                            end.push(iseq.gen_jmp());
+                            iseq.write_disp_from_cur(next);
                         }
                         self.gen(globals, iseq, *else_, use_value)?;
                         for dest in end {
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 36318a3..0b98cdc 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -558,7 +558,7 @@ impl GC<RValue> for ConstantValues {
 ///
 #[derive(Debug, Clone)]
 pub struct CaseDispatchMap {
-    table: Vec<FxHashMap<HashKey, ISeqDisp>>,
+    table: Vec<FxIndexMap<HashKey, ISeqDisp>>,
     id: u32,
 }
 
@@ -572,19 +572,22 @@ impl CaseDispatchMap {
 
     pub(crate) fn new_entry(&mut self) -> u32 {
         self.id += 1;
-        self.table.push(FxHashMap::default());
+        self.table.push(FxIndexMap::default());
         self.id - 1
     }
 
-    pub(crate) fn get_entry(&self, id: u32) -> &FxHashMap<HashKey, ISeqDisp> {
+    pub(crate) fn get_entry(&self, id: u32) -> &FxIndexMap<HashKey, ISeqDisp> {
         &self.table[id as usize]
     }
 
-    pub(crate) fn get_mut_entry(&mut self, id: u32) -> &mut FxHashMap<HashKey, ISeqDisp> {
+    pub(crate) fn get_mut_entry(&mut self, id: u32) -> &mut FxIndexMap<HashKey, ISeqDisp> {
         &mut self.table[id as usize]
     }
 }
 
+/// (min, max, displacements of min..=max, labels in order of appearance)
+type CaseDispatchTable = (i64, i64, Vec<ISeqDisp>, Vec<(i64, ISeqDisp)>);
+
 ///
 /// Case dispatch map-2.
 ///
@@ -592,7 +595,7 @@ impl CaseDispatchMap {
 ///
 #[derive(Debug, Clone)]
 pub struct CaseDispatchMap2 {
-    table: Vec<(i64, i64, Vec<ISeqDisp>)>, //(min, max, map)
+    table: Vec<CaseDispatchTable>,
 }
 
 impl CaseDispatchMap2 {
@@ -602,15 +605,15 @@ impl CaseDispatchMap2 {
 
     pub(crate) fn new_entry(&mut self) -> u32 {
         let len = self.table.len();
-        self.table.push((0, 0, vec![]));
+        self.table.push((0, 0, vec![], vec![]));
         len as u32
     }
 
-    pub(crate) fn get_entry(&self, id: u32) -> &(i64, i64, Vec<ISeqDisp>) {
+    pub(crate) fn get_entry(&self, id: u32) -> &CaseDispatchTable {
         &self.table[id as usize]
     }
 
-    pub(crate) fn get_mut_entry(&mut self, id: u32) -> &mut (i64, i64, Vec<ISeqDisp>) {
+    pub(crate) fn get_mut_entry(&mut self, id: u32) -> &mut CaseDispatchTable {
         &mut self.table[id as usize]
     }
 }
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index d5dd8a8..0d783a4 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -308,6 +308,7 @@ impl VM {
                 ObjKind::STRING | ObjKind::ARRAY | ObjKind::HASH if oref.is_plain() => {
                     self.eval_eq2(rhs, lhs)?
                 }
+                ObjKind::SPLAT => self.teq_splat(lhs, rhs)?,
                 _ => return self.invoke_send1(IdentId::_TEQ, lhs, rhs),
             },
             None => self.eval_eq2(rhs, lhs)?,
@@ -315,6 +316,76 @@ impl VM {
         Ok(VMResKind::Return(Value::bool(b)))
     }
 
+    /// `when *lhs` for the subject `rhs`.
+    fn teq_splat(&mut self, lhs: Value, rhs: Value) -> Result<bool, RubyError> {
+        self.stack_push(lhs);
+        let list = self.pop_args_to_array(1)?;
+        let temp_len = self.temp_len();
+        self.temp_push(list);
+        self.temp_push(rhs);
+        let mut res = Ok(false);
+        let mut i = 0;
+        while let Some(elem) = list.as_array().and_then(|ary| ary.get(i).copied()) {
+            res = self.eval_teq(rhs, elem);
+            if !matches!(res, Ok(false)) {
+                break;
+            }
+            i += 1;
+        }
+        self.temp_pop_vec(temp_len);
+        res
+    }
+
+    /// Does the literal `label` of a when clause accept `val`?
+    fn case_label(&mut self, label: Value, val: Value) -> Result<bool, RubyError> {
+        let temp_len = self.temp_len();
+        self.temp_push(val);
+        let res = self.eval_teq(val, label);
+        self.temp_pop_vec(temp_len);
+        res
+    }
+
+    /// Find the first label which accepts `val` in the case dispatch map `entry`.
+    pub(super) fn case_dispatch(
+        &mut self,
+        entry: u32,
+        val: Value,
+    ) -> Result<Option<ISeqDisp>, RubyError> {
+        let map = self.globals.case_dispatch.get_entry(entry);
+        let by_key = match val.as_rvalue() {
+            Some(oref) => oref.kind() == ObjKind::STRING,
+            None => !val.is_real(),
+        };
+        if by_key || val.as_fixnum().is_some() {
+            return Ok(map.get(&HashKey(val)).copied());
+        }
+        let labels: Vec<_> = map.iter().map(|(k, disp)| (k.0, *disp)).collect();
+        for (label, disp) in labels {
+            if self.case_label(label, val)? {
+                return Ok(Some(disp));
+            }
+        }
+        Ok(None)
+    }
+
+    /// Find the first label which accepts `val` in the case dispatch map-2 `entry`.
+    pub(super) fn case_dispatch2(
+        &mut self,
+        entry: u32,
+        val: Value,
+    ) -> Result<Option<ISeqDisp>, RubyError> {
+        if val.as_rvalue().is_none() && !val.is_real() {
+            return Ok(None);
+        }
+        let labels = self.globals.case_dispatch2.get_entry(entry).3.clone();
+        for (label, disp) in labels {
+            if self.case_label(Value::integer(label), val)? {
+                return Ok(Some(disp));
+            }
+        }
+        Ok(None)
+    }
+
     fn teq_regexp(&mut self, oref: &RValue, rhs: Value) -> Result<bool, RubyError> {
         let re = &*oref.regexp();
         let given = match rhs.unpack() {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 5cd4a92..b1fb127 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -435,12 +435,8 @@ impl VM {
                     Inst::OPT_CASE => {
                         let val = self.stack_pop();
                         let entry = self.pc.read32();
-                        let map = self.globals.case_dispatch.get_entry(entry);
                         let default = self.pc.read_disp();
-                        let disp = match map.get(&HashKey(val)) {
-                            Some(disp) => *disp,
-                            None => default,
-                        };
+                        let disp = self.case_dispatch(entry, val)?.unwrap_or(default);
                         self.pc += disp;
                     }
                     Inst::OPT_CASE2 => {
@@ -455,7 +451,7 @@ impl VM {
                                 default
                             }
                         } else {
-                            default
+                            self.case_dispatch2(entry, val)?.unwrap_or(default)
                         };
                         self.pc += disp;
                     }
-- 
2.43.0


From ab452659bca7a7b354f3b6e29b4c0f6b8c5adfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 31/57] fix: op-assign evaluates receiver and indices once,
 multiple assignment works from left to right and yields its right-hand side,
 attribute assignment yields the assigned value

---
 ruruby-parse/src/node.rs              |   4 +-
 ruruby-parse/src/parser/expression.rs |   9 +-
 ruruby/src/codegen.rs                 | 365 ++++++++++++++++++--------
 ruruby/src/codegen/defined.rs         |   8 +
 4 files changed, 266 insertions(+), 120 deletions(-)

diff --git a/ruruby-parse/src/node.rs b/ruruby-parse/src/node.rs
index bfba10e..bed3cdd 100644
--- a/ruruby-parse/src/node.rs
+++ b/ruruby-parse/src/node.rs
@@ -436,7 +436,7 @@ impl Node {
         Node::new(NodeKind::Command(Box::new(node)), loc)
     }
 
-    pub(crate) fn new_defined(node: Node) -> Self {
+    pub fn new_defined(node: Node) -> Self {
         let loc = node.loc;
         Node::new(NodeKind::Defined(Box::new(node)), loc)
     }
@@ -522,7 +522,7 @@ impl Node {
         Node::new(NodeKind::Scope(Box::new(parent), id), loc)
     }
 
-    pub(crate) fn new_mul_assign(mlhs: Vec<Node>, mrhs: Vec<Node>) -> Self {
+    pub fn new_mul_assign(mlhs: Vec<Node>, mrhs: Vec<Node>) -> Self {
         let splat_flag = mrhs.iter().any(|n| n.is_splat());
         let mrhs = if splat_flag || mlhs.len() == 1 && mrhs.len() != 1 {
             let loc = mrhs[0].loc();
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 8c9fb96..01698ab 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -166,6 +166,11 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         for lhs in &mlhs {
             self.check_lhs(lhs)?;
         }
+        if mlhs.len() == 1 {
+            // `a, = b`: the rest is thrown away.
+            let loc = mlhs[0].loc();
+            mlhs.push(Node::new_nil(loc));
+        }
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
     }
@@ -500,9 +505,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 if let NodeKind::Ident(id) = lhs.kind {
                     lhs = Node::new_lvar(id, lhs.loc());
                 };
-                let node =
-                    Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
-                Ok(node)
+                Ok(Node::new_assign_op(op, lhs, rhs))
             }
             _ => {
                 self.get()?;
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index a8a23ab..ed1411d 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -453,6 +453,8 @@ impl Codegen {
                     );
                 };
             }
+            // `a, = b`
+            NodeKind::Nil => iseq.gen_pop(),
             _ => {
                 return Err(
                     self.error_syntax(format!("Unimplemented LHS form. {:#?}", lhs), lhs.loc())
@@ -521,8 +523,11 @@ impl Codegen {
             } => {
                 let assign_id = IdentId::get_id_from_string(format!("{:?}=", method));
                 self.gen(globals, iseq, *receiver, true)?;
-                self.gen(globals, iseq, rhs, true)?;
-                self.emit_opt_send(globals, iseq, assign_id, 1, None, use_value, lhs_loc);
+                self.gen_assign_val(globals, iseq, rhs, use_value)?;
+                if use_value {
+                    iseq.gen_sinkn(2);
+                }
+                self.emit_opt_send(globals, iseq, assign_id, 1, None, false, lhs_loc);
             }
             NodeKind::Index { base, index } => {
                 self.gen(globals, iseq, *base, true)?;
@@ -575,6 +580,230 @@ impl Codegen {
         Ok(())
     }
 
+    /// Generate `<stack top> op rhs`.
+    fn gen_binop(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        op: BinOp,
+        rhs: Node,
+        use_value: bool,
+        loc: Loc,
+    ) -> Result<(), RubyError> {
+        macro_rules! binop {
+            ($inst:expr) => {{
+                self.gen(globals, iseq, rhs, true)?;
+                iseq.push($inst);
+                self.save_loc(iseq, loc);
+            }};
+        }
+        macro_rules! binop_imm {
+            ($inst:expr, $inst_i:expr) => {
+                if let Some(i) = rhs.is_imm_i32() {
+                        iseq.push($inst_i);
+                    iseq.push32(i as u32);
+                    self.save_loc(iseq, loc);
+                } else {
+                    binop!($inst);
+                }
+            };
+        }
+        match op {
+            BinOp::Add => binop_imm!(Inst::ADD, Inst::ADDI),
+            BinOp::Sub => binop_imm!(Inst::SUB, Inst::SUBI),
+            BinOp::Mul => binop!(Inst::MUL),
+            BinOp::Div => binop!(Inst::DIV),
+            BinOp::Exp => binop!(Inst::POW),
+            BinOp::Rem => binop!(Inst::REM),
+            BinOp::Shr => binop!(Inst::SHR),
+            BinOp::Shl => binop!(Inst::SHL),
+            BinOp::BitOr => binop!(Inst::BOR),
+            BinOp::BitAnd => binop!(Inst::BAND),
+            BinOp::BitXor => binop!(Inst::BXOR),
+            BinOp::Eq => binop_imm!(Inst::EQ, Inst::EQI),
+            BinOp::Ne => binop_imm!(Inst::NE, Inst::NEI),
+            BinOp::TEq => binop!(Inst::TEQ),
+            BinOp::Match => {
+                let method = IdentId::get_id("=~");
+                self.gen(globals, iseq, rhs, true)?;
+                self.emit_opt_send(globals, iseq, method, 1, None, use_value, loc);
+                return Ok(());
+            }
+            BinOp::Ge => binop_imm!(Inst::GE, Inst::GEI),
+            BinOp::Gt => binop_imm!(Inst::GT, Inst::GTI),
+            BinOp::Le => binop_imm!(Inst::LE, Inst::LEI),
+            BinOp::Lt => binop_imm!(Inst::LT, Inst::LTI),
+            BinOp::Cmp => binop!(Inst::CMP),
+            BinOp::LAnd => {
+                if use_value {
+                    iseq.gen_dup(1);
+                }
+                let src = iseq.gen_jmp_if_f();
+                if use_value {
+                    iseq.gen_pop();
+                }
+                self.gen(globals, iseq, rhs, use_value)?;
+                iseq.write_disp_from_cur(src);
+                return Ok(());
+            }
+            BinOp::LOr => {
+                if use_value {
+                    iseq.gen_dup(1);
+                }
+                let src = iseq.gen_jmp_if_t();
+                if use_value {
+                    iseq.gen_pop();
+                }
+                self.gen(globals, iseq, rhs, use_value)?;
+                iseq.write_disp_from_cur(src);
+                return Ok(());
+            }
+        }
+        if !use_value {
+            iseq.gen_pop()
+        };
+        Ok(())
+    }
+
+    /// Generate `lhs op= rhs`. The receiver and the indices of `lhs` are evaluated only once.
+    fn gen_assign_op(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        op: BinOp,
+        lhs: Node,
+        rhs: Node,
+        use_value: bool,
+    ) -> Result<(), RubyError> {
+        let loc = lhs.loc();
+        // (getter, setter, number of values which specify the target, splat in indices)
+        let (get_id, set_id, len, has_splat) = match lhs.kind {
+            NodeKind::Send {
+                receiver,
+                method,
+                safe_nav: false,
+                ..
+            } => {
+                self.gen(globals, iseq, *receiver, true)?;
+                iseq.gen_dup(1);
+                let set_id = IdentId::get_id_from_string(format!("{:?}=", method));
+                (method, set_id, 1, false)
+            }
+            NodeKind::Index { base, index } => {
+                let len = index.len() + 1;
+                self.gen(globals, iseq, *base, true)?;
+                let has_splat = self.gen_nodes_check_splat(globals, iseq, index)?;
+                iseq.gen_dup(len);
+                (IdentId::_INDEX, IdentId::_INDEX_ASSIGN, len, has_splat)
+            }
+            _ => {
+                let rhs = match op {
+                    BinOp::LOr | BinOp::LAnd => {
+                        let cond = match lhs.kind {
+                            NodeKind::Const { .. } | NodeKind::Scope(..) | NodeKind::ClassVar(_)
+                                if op == BinOp::LOr =>
+                            {
+                                Node::new_binop(
+                                    BinOp::LAnd,
+                                    Node::new_defined(lhs.clone()),
+                                    lhs.clone(),
+                                )
+                            }
+                            _ => lhs.clone(),
+                        };
+                        let assign = Node::new_mul_assign(vec![lhs], vec![rhs]);
+                        let node = Node::new_binop(op, cond, assign);
+                        return self.gen(globals, iseq, node, use_value);
+                    }
+                    _ => Node::new_binop(op, lhs.clone(), rhs),
+                };
+                return self.gen_assign2(globals, iseq, lhs, rhs, use_value);
+            }
+        };
+        let index = get_id == IdentId::_INDEX;
+        if index && len == 2 && !has_splat {
+            self.emit_get_array_elem(iseq, loc);
+        } else {
+            self.gen_send_with_splat(globals, iseq, get_id, len - 1, has_splat, true, loc);
+        }
+        let skip = match op {
+            BinOp::LOr | BinOp::LAnd => {
+                iseq.gen_dup(1);
+                let skip = if op == BinOp::LOr {
+                    iseq.gen_jmp_if_t()
+                } else {
+                    iseq.gen_jmp_if_f()
+                };
+                iseq.gen_pop();
+                self.gen(globals, iseq, rhs, true)?;
+                Some(skip)
+            }
+            _ => {
+                self.gen_binop(globals, iseq, op, rhs, true, loc)?;
+                None
+            }
+        };
+        if use_value {
+            iseq.gen_dup(1);
+            iseq.gen_sinkn(len + 1);
+        }
+        if index && len == 2 && !has_splat {
+            iseq.gen_set_array_elem();
+            self.save_loc(iseq, loc);
+        } else {
+            self.gen_send_with_splat(globals, iseq, set_id, len, has_splat, false, loc);
+        }
+        if let Some(skip) = skip {
+            let end = iseq.gen_jmp();
+            iseq.write_disp_from_cur(skip);
+            if use_value {
+                iseq.gen_sinkn(len);
+            } else {
+                iseq.gen_pop();
+            }
+            for _ in 0..len {
+                iseq.gen_pop();
+            }
+            iseq.write_disp_from_cur(end);
+        }
+        Ok(())
+    }
+
+    /// Assign the topmost values of the stack to `mlhs` from left to right.
+    fn gen_mul_assign(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        mlhs: Vec<Node>,
+    ) -> Result<(), RubyError> {
+        let is_var = |node: &Node| {
+            matches!(
+                node.kind,
+                NodeKind::Ident(_)
+                    | NodeKind::LocalVar(_)
+                    | NodeKind::InstanceVar(_)
+                    | NodeKind::GlobalVar(_)
+            )
+        };
+        let any_order = mlhs.iter().enumerate().all(|(i, node)| {
+            is_var(node) && mlhs[..i].iter().all(|other| other.kind != node.kind)
+        });
+        if any_order {
+            for lhs in mlhs.into_iter().rev() {
+                self.gen_assign(globals, iseq, lhs)?;
+            }
+        } else {
+            let len = mlhs.len();
+            for (i, lhs) in mlhs.into_iter().enumerate() {
+                if i + 1 != len {
+                    iseq.gen_topn(len - i - 1);
+                }
+                self.gen_assign(globals, iseq, lhs)?;
+            }
+        }
+        Ok(())
+    }
+
     fn gen_comp_stmt(
         &mut self,
         globals: &mut Globals,
@@ -923,90 +1152,12 @@ impl Codegen {
             }
             NodeKind::BinOp(op, lhs, rhs) => {
                 let loc = self.loc;
-                macro_rules! binop {
-                    ($inst:expr) => {{
-                        self.gen(globals, iseq, *lhs, true)?;
-                        self.gen(globals, iseq, *rhs, true)?;
-                        iseq.push($inst);
-                        self.save_loc(iseq, loc);
-                    }};
-                }
-                macro_rules! binop_imm {
-                    ($inst:expr, $inst_i:expr) => {
-                        if let Some(i) = rhs.is_imm_i32() {
-                            self.gen(globals, iseq, *lhs, true)?;
-                            iseq.push($inst_i);
-                            iseq.push32(i as u32);
-                            self.save_loc(iseq, loc);
-                        } else {
-                            binop!($inst);
-                        }
-                    };
-                }
-                match op {
-                    BinOp::Add => binop_imm!(Inst::ADD, Inst::ADDI),
-                    BinOp::Sub => binop_imm!(Inst::SUB, Inst::SUBI),
-                    BinOp::Mul => binop!(Inst::MUL),
-                    BinOp::Div => binop!(Inst::DIV),
-                    BinOp::Exp => binop!(Inst::POW),
-                    BinOp::Rem => binop!(Inst::REM),
-                    BinOp::Shr => binop!(Inst::SHR),
-                    BinOp::Shl => binop!(Inst::SHL),
-                    BinOp::BitOr => binop!(Inst::BOR),
-                    BinOp::BitAnd => binop!(Inst::BAND),
-                    BinOp::BitXor => binop!(Inst::BXOR),
-                    BinOp::Eq => binop_imm!(Inst::EQ, Inst::EQI),
-                    BinOp::Ne => binop_imm!(Inst::NE, Inst::NEI),
-                    BinOp::TEq => binop!(Inst::TEQ),
-                    BinOp::Match => {
-                        let method = IdentId::get_id("=~");
-                        self.gen(globals, iseq, *lhs, true)?;
-                        self.gen(globals, iseq, *rhs, true)?;
-                        self.emit_opt_send(globals, iseq, method, 1, None, use_value, loc);
-                        return Ok(());
-                    }
-                    BinOp::Ge => binop_imm!(Inst::GE, Inst::GEI),
-                    BinOp::Gt => binop_imm!(Inst::GT, Inst::GTI),
-                    BinOp::Le => binop_imm!(Inst::LE, Inst::LEI),
-                    BinOp::Lt => binop_imm!(Inst::LT, Inst::LTI),
-                    BinOp::Cmp => binop!(Inst::CMP),
-                    BinOp::LAnd => {
-                        self.gen(globals, iseq, *lhs, true)?;
-                        if use_value {
-                            iseq.gen_dup(1);
-                        }
-                        let src = iseq.gen_jmp_if_f();
-                        if use_value {
-                            iseq.gen_pop();
-                        }
-                        self.gen(globals, iseq, *rhs, use_value)?;
-                        iseq.write_disp_from_cur(src);
-                        return Ok(());
-                    }
-                    BinOp::LOr => {
-                        self.gen(globals, iseq, *lhs, true)?;
-                        if use_value {
-                            iseq.gen_dup(1);
-                        }
-                        let src = iseq.gen_jmp_if_t();
-                        if use_value {
-                            iseq.gen_pop();
-                        }
-                        self.gen(globals, iseq, *rhs, use_value)?;
-                        iseq.write_disp_from_cur(src);
-                        return Ok(());
-                    }
-                }
-                if !use_value {
-                    iseq.gen_pop()
-                };
+                self.gen(globals, iseq, *lhs, true)?;
+                self.gen_binop(globals, iseq, op, *rhs, use_value, loc)?;
+            }
+            NodeKind::AssignOp(op, box lhs, box rhs) => {
+                self.gen_assign_op(globals, iseq, op, lhs, rhs, use_value)?
             }
-            NodeKind::AssignOp(op, box lhs, box rhs) => match (&op, &lhs.kind, &rhs.kind) {
-                _ => {
-                    let rhs = Node::new_binop(op, lhs.clone(), rhs);
-                    self.gen_assign2(globals, iseq, lhs, rhs, use_value)?;
-                }
-            },
             NodeKind::UnOp(op, lhs) => {
                 self.gen(globals, iseq, *lhs, true)?;
                 match op {
@@ -1411,42 +1562,26 @@ impl Codegen {
                         iseq.gen_dup(1);
                     };
                     iseq.gen_take(lhs_len);
-
-                    for lhs in mlhs.into_iter().rev() {
-                        self.gen_assign(globals, iseq, lhs)?;
-                    }
+                    self.gen_mul_assign(globals, iseq, mlhs)?;
                 } else {
                     // no splat. mlhs.len != 1
                     let mrhs_len = mrhs.len();
-                    if !use_value {
-                        for (i, node) in mrhs.into_iter().enumerate() {
-                            self.gen(globals, iseq, node, i < mlhs.len())?;
-                        }
-                        if mlhs.len() > mrhs_len {
-                            for _ in mrhs_len..mlhs.len() {
-                                iseq.gen_push_nil();
-                            }
-                        }
-                        for lhs in mlhs.into_iter().rev() {
-                            self.gen_assign(globals, iseq, lhs)?;
-                        }
-                    } else {
-                        let len = std::cmp::max(mlhs.len(), mrhs.len());
-                        for rhs in mrhs {
-                            self.gen(globals, iseq, rhs, true)?;
-                        }
-                        for _ in mrhs_len..len {
-                            iseq.gen_push_nil();
-                        }
-                        iseq.gen_dup(len);
-                        for _ in mlhs.len()..len {
+                    for (i, node) in mrhs.into_iter().enumerate() {
+                        self.gen(globals, iseq, node, use_value || i < lhs_len)?;
+                    }
+                    if use_value {
+                        // The value is an array of all elements of the right-hand side.
+                        iseq.gen_dup(mrhs_len);
+                        iseq.gen_create_array(mrhs_len);
+                        iseq.gen_sinkn(mrhs_len);
+                        for _ in lhs_len..mrhs_len {
                             iseq.gen_pop();
                         }
-                        for lhs in mlhs.into_iter().rev() {
-                            self.gen_assign(globals, iseq, lhs)?;
-                        }
-                        iseq.gen_create_array(len);
                     }
+                    for _ in mrhs_len..lhs_len {
+                        iseq.gen_push_nil();
+                    }
+                    self.gen_mul_assign(globals, iseq, mlhs)?;
                 }
             }
             NodeKind::Command(content) => {
diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index fcc50ee..0679329 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -73,6 +73,14 @@ impl Codegen {
                 nil_labels.push(iseq.gen_jmp_if_t());
                 Ok(())
             }
+            NodeKind::ClassVar(id) => {
+                let start = iseq.current();
+                self.emit_get_class_var(iseq, *id);
+                let end = iseq.current();
+                exceptions.push((start, end));
+                iseq.gen_pop();
+                Ok(())
+            }
             NodeKind::Const {
                 toplevel: false,
                 id,
-- 
2.43.0


From c2a037f60ae2434aaba2cd6ce74495f80a6cf6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:08 +0000
Subject: [PATCH 32/57] fix: look constants up in the ancestors of the lexical
 class, not of the class of self

---
 ruruby/src/builtin/module.rs        |  1 +
 ruruby/src/value/class.rs           |  2 ++
 ruruby/src/vm/executor/constants.rs | 43 ++++++++++++++++++-----------
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 3e10f19..3abc483 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -197,6 +197,7 @@ fn autoload(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let feature = arg1.expect_string("2nd")?.to_string();
     let mut parent = Module::new(self_val);
     parent.set_autoload(const_name, feature);
+    vm.globals.const_version += 1;
     Ok(Value::nil())
 }
 
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 5fe641d..d36bcf3 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -486,6 +486,7 @@ impl ClassInfo {
     pub(crate) fn append_include(&mut self, globals: &mut Globals, module: Module) {
         self.append_include_without_increment_version(module);
         globals.methods.inc_class_version();
+        globals.const_version += 1;
     }
 
     pub(crate) fn append_include_without_increment_version(&mut self, module: Module) {
@@ -508,6 +509,7 @@ impl ClassInfo {
         }
         self.insert_modules(None, module, false);
         globals.methods.inc_class_version();
+        globals.const_version += 1;
     }
 
     /// Find an entry which represents `self` itself in the ancestor chain of the class with prepended modules.
diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index de74462..3272e80 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -7,21 +7,18 @@ impl VM {
     /// Search class inheritance chain of `class` for a constant `id`, returning the value.
     /// Returns name error if the constant was not defined.
     pub(crate) fn get_super_const(&mut self, mut class: Module, id: IdentId) -> VMResult {
-        let is_module = class.is_module();
+        let mut is_module = class.is_module();
         let object = self.globals.classes.object;
         loop {
             match self.get_mut_const(class, id)? {
                 Some(val) => return Ok(val),
                 None => match class.upper() {
                     Some(upper) => class = upper,
-                    None => {
-                        if is_module {
-                            if let Some(v) = self.get_mut_const(object, id)? {
-                                return Ok(v);
-                            }
-                        }
-                        return Err(RubyError::uninitialized_constant(id));
+                    None if is_module => {
+                        is_module = false;
+                        class = object;
                     }
+                    None => return Err(RubyError::uninitialized_constant(id)),
                 },
             }
         }
@@ -42,27 +39,41 @@ impl VM {
 }
 
 impl VM {
-    /// Search lexical class stack and then, search class inheritance chain for a constant `id`,
-    /// returning the value.
+    /// Search lexical class stack and then, search inheritance chain of the innermost lexical class
+    /// (Object on toplevel) for a constant `id`, returning the value.
     /// Returns error if the constant was not defined, or autoload failed.
     pub(super) fn find_const(&mut self, id: IdentId) -> VMResult {
         match self.get_lexical_const(id)? {
             Some(v) => Ok(v),
             None => {
-                let self_val = self.self_value();
-                let class = self.globals.get_class(self_val);
+                let class = match self.get_method_iseq().class_defined.last() {
+                    Some(class) => *class,
+                    None => self.globals.classes.object,
+                };
                 self.get_super_const(class, id)
             }
         }
     }
 
-    /// Search constant table of `parent` for a constant `id`.
+    /// Search constant table of `parent` and its ancestors for a constant `id`.
+    /// Object and its ancestors are searched only when `parent` is Object itself or one of its ancestors.
     /// If the constant was found, returns the value.
     /// Returns error if the constant was not defined or an autoload failed.
     pub(super) fn get_scope(&mut self, parent: Module, id: IdentId) -> VMResult {
-        match self.get_mut_const(parent, id)? {
-            Some(val) => Ok(val),
-            None => Err(RubyError::uninitialized_constant(id)),
+        let object = self.globals.classes.object;
+        let mut class = parent;
+        loop {
+            if let Some(val) = self.get_mut_const(class, id)? {
+                return Ok(val);
+            }
+            match class.upper() {
+                Some(upper)
+                    if parent.id() == object.id() || upper.real_module().id() != object.id() =>
+                {
+                    class = upper
+                }
+                _ => return Err(RubyError::uninitialized_constant(id)),
+            }
         }
     }
 
-- 
2.43.0


From 229c3a3aade3152daef8f132bda768d796ccdaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 33/57] fix: dup drops and clone copies the singleton class,
 class variables belong to the lexical class, state of copies is independent

---
 ruruby/src/builtin/array.rs        |  8 ------
 ruruby/src/builtin/hash.rs         |  8 ------
 ruruby/src/builtin/module.rs       | 27 ++++++++++---------
 ruruby/src/builtin/object.rs       | 42 +++++++++++++++++++++++++-----
 ruruby/src/builtin/structobj.rs    | 37 +++++++++++---------------
 ruruby/src/value/class.rs          | 29 +++++++++++++++++++++
 ruruby/src/value/value.rs          | 14 +++++++++-
 ruruby/src/vm/executor.rs          | 25 +++++++++---------
 ruruby/src/vm/executor/method.rs   |  2 +-
 ruruby/src/vm/executor/opt_core.rs |  1 +
 10 files changed, 121 insertions(+), 72 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index c3196b4..b9ea55c 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -56,8 +56,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "max", max);
     class.add_builtin_method_by_str(globals, "first", first);
     class.add_builtin_method_by_str(globals, "last", last);
-    class.add_builtin_method_by_str(globals, "dup", dup);
-    class.add_builtin_method_by_str(globals, "clone", dup);
     class.add_builtin_method_by_str(globals, "pack", pack);
     class.add_builtin_method_by_str(globals, "join", join);
     class.add_builtin_method_by_str(globals, "drop", drop);
@@ -814,12 +812,6 @@ fn last(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
-fn dup(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let aref = self_val.into_array();
-    Ok(Value::array_from(aref.to_vec()))
-}
-
 fn pack(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let aref = self_val.into_array();
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 857f0ba..b6a2bc3 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -8,8 +8,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "[]", get_elem);
     class.add_builtin_method_by_str(globals, "[]=", set_elem);
     class.add_builtin_method_by_str(globals, "clear", clear);
-    class.add_builtin_method_by_str(globals, "clone", clone);
-    class.add_builtin_method_by_str(globals, "dup", clone);
     class.add_builtin_method_by_str(globals, "compact", compact);
     class.add_builtin_method_by_str(globals, "delete", delete);
     class.add_builtin_method_by_str(globals, "empty?", empty);
@@ -81,12 +79,6 @@ fn clear(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn clone(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
-    Ok(Value::hash_from(hash.clone()))
-}
-
 fn compact(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let mut hash = self_val.expect_hash("Receiver")?.clone();
diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 3abc483..51c302d 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -202,19 +202,20 @@ fn autoload(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 }
 
 fn class_variables(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let inherit = vm[0].to_bool();
-    assert_eq!(inherit, false);
-    let receiver = self_val.rvalue();
-    let res = match receiver.var_table() {
-        Some(table) => table
-            .keys()
-            .filter(|x| x.is_class_var())
-            .map(|x| Value::symbol(*x))
-            .collect(),
-        None => vec![],
-    };
-    Ok(Value::array_from(res))
+    args.check_args_range(0, 1)?;
+    let inherit = args.len() == 0 || vm[0].to_bool();
+    let mut names = FxIndexSet::default();
+    let mut module = Some(self_val.into_module());
+    while let Some(m) = module {
+        let val: Value = m.real_module().into();
+        if let Some(table) = val.rvalue().var_table() {
+            names.extend(table.keys().filter(|x| x.is_class_var()).cloned());
+        }
+        module = if inherit { m.upper() } else { None };
+    }
+    Ok(Value::array_from(
+        names.into_iter().map(|id| Value::symbol(id)).collect(),
+    ))
 }
 
 fn const_defined(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 5c055dc..8d3207b 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -20,7 +20,7 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "eql?", eql);
     object.add_builtin_method_by_str(globals, "singleton_class", singleton_class);
     object.add_builtin_method_by_str(globals, "extend", extend);
-    object.add_builtin_method_by_str(globals, "clone", dup);
+    object.add_builtin_method_by_str(globals, "clone", clone);
     object.add_builtin_method_by_str(globals, "dup", dup);
     object.add_builtin_method_by_str(globals, "nil?", nil_);
     object.add_builtin_method_by_str(globals, "method", method);
@@ -91,8 +91,20 @@ fn extend(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn dup(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+fn dup(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
+    copy_object(vm, self_val, false)
+}
+
+fn clone(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    copy_object(vm, self_val, true)
+}
+
+/// Copy `self_val` with its instance variables.
+///
+/// Singleton methods are copied only when `with_singleton` is true or `self_val` is a class or a module.
+fn copy_object(vm: &mut VM, mut self_val: Value, with_singleton: bool) -> VMResult {
     match self_val.as_rvalue().map(|rv| rv.kind()) {
         Some(ObjKind::FIBER) => return Err(RubyError::typeerr("Allocator undefined for Fiber.")),
         Some(ObjKind::ENUMERATOR) => {
@@ -106,6 +118,23 @@ fn dup(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         _ => {}
     }
     let val = self_val.shallow_dup();
+    if let Some(rv) = val.as_rvalue() {
+        let class = rv.class();
+        let real_class = rv.real_class();
+        let is_module = val.if_mod_class().is_some();
+        if let Some(module) = val.if_mod_class() {
+            module.detach(&mut vm.globals, self_val.into_module(), None);
+        }
+        if class.is_singleton() {
+            if with_singleton || is_module {
+                let singleton = class.dup();
+                singleton.detach(&mut vm.globals, class, Some(val));
+                val.set_class(singleton);
+            } else {
+                val.set_class(real_class);
+            }
+        }
+    }
     Ok(val)
 }
 
@@ -147,6 +176,7 @@ fn instance_variable_set(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult
     let name = vm[0];
     let val = vm[1];
     let var_id = name.expect_symbol_or_string("1st arg")?;
+    self_val.check_frozen()?;
     self_val.set_var(var_id, val);
     Ok(val)
 }
@@ -155,8 +185,7 @@ fn instance_variable_get(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult
     args.check_args_num(1)?;
     let name = vm[0];
     let var_id = name.expect_symbol_or_string("1st arg")?;
-    let self_obj = self_val.rvalue();
-    let val = match self_obj.get_var(var_id) {
+    let val = match self_val.get_var(var_id) {
         Some(val) => val,
         None => Value::nil(),
     };
@@ -165,11 +194,10 @@ fn instance_variable_get(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult
 
 fn instance_variables(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let receiver = self_val.rvalue();
-    let res = match receiver.var_table() {
+    let res = match self_val.as_rvalue().and_then(|rv| rv.var_table()) {
         Some(table) => table
             .keys()
-            .filter(|x| x.starts_with("@"))
+            .filter(|x| x.starts_with("@") && !x.is_class_var())
             .map(|x| Value::symbol(*x))
             .collect(),
         None => vec![],
diff --git a/ruruby/src/builtin/structobj.rs b/ruruby/src/builtin/structobj.rs
index fb20d80..2796980 100644
--- a/ruruby/src/builtin/structobj.rs
+++ b/ruruby/src/builtin/structobj.rs
@@ -62,10 +62,20 @@ fn struct_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(class.into())
 }
 
+/// Get an array of member names, which the class made by Struct.new or one of its subclasses has.
+fn get_members(vm: &mut VM, self_val: Value) -> Result<Array, RubyError> {
+    let mut class = Some(vm.globals.get_class(self_val));
+    while let Some(c) = class {
+        if let Some(name) = c.get_var(IdentId::get_id("/members")) {
+            return Ok(name.into_array());
+        }
+        class = c.superclass();
+    }
+    Err(RubyError::internal("No /members."))
+}
+
 fn initialize(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let class = vm.globals.get_class(self_val);
-    let name = class.get_var(IdentId::get_id("/members")).unwrap();
-    let members = name.into_array();
+    let members = get_members(vm, self_val)?;
     if members.len() < args.len() {
         return Err(RubyError::argument("Struct size differs."));
     };
@@ -84,26 +94,9 @@ fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
         Some(name) => inspect += &name,
         None => {}
     };
-    let name = match vm
-        .globals
-        .get_class(self_val)
-        .get_var(IdentId::get_id("/members"))
-    {
-        Some(name) => name,
-        None => return Err(RubyError::internal("No /members.")),
-    };
-    //eprintln!("{:?}", name);
-    let members = match name.as_array() {
-        Some(aref) => aref,
-        None => {
-            return Err(RubyError::internal(format!(
-                "Illegal _members value. {:?}",
-                name
-            )))
-        }
-    };
+    let members = get_members(vm, self_val)?;
 
-    for x in &**members {
+    for x in members.iter() {
         let id = x.as_symbol().unwrap().add_prefix("@");
         let val = match self_val.get_var(id) {
             Some(v) => Cow::from(vm.val_inspect(v)?),
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index d36bcf3..1945d13 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -110,6 +110,32 @@ impl Module {
         self.get().set_class(class)
     }
 
+    /// Copy the tables of `self`, which is a fresh duplicate of `src`, and the entries of its included modules
+    /// so that both are independent of each other.
+    ///
+    /// `target`: the object which `self` is a singleton class of.
+    pub(crate) fn detach(mut self, globals: &mut Globals, src: Module, target: Option<Value>) {
+        let mut ext = (*src.ext).clone();
+        ext.name = None;
+        ext.singleton_for = target;
+        ext.origin = ext.origin.map(|_| self);
+        self.ext = ClassRef::new(ext);
+        let mut class = self;
+        while let Some(upper) = class.upper {
+            if !upper.is_included() {
+                break;
+            }
+            let mut entry = upper.dup();
+            if entry.ext.id() == src.ext.id() {
+                // the origin of the class with prepended modules
+                entry.ext = self.ext;
+            }
+            class.upper = Some(entry);
+            class = entry;
+        }
+        globals.methods.inc_class_version();
+    }
+
     /// Get a real module of `self`.
     /// If `self` is an included module, return its origin.
     pub(crate) fn real_module(&self) -> Module {
@@ -328,6 +354,9 @@ impl GC<RValue> for ClassInfo {
             upper.mark(alloc);
         }
         self.ext.const_table.values().for_each(|v| v.mark(alloc));
+        if let Some(target) = &self.ext.singleton_for {
+            target.mark(alloc)
+        };
         if let Some(module) = &self.ext.origin {
             module.mark(alloc)
         };
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index fa68b35..4db6e0f 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -459,6 +459,18 @@ impl Value {
         self.get_class_for_method().is_singleton()
     }*/
 
+    /// Return RuntimeError if `self` is an immediate value, which can not have instance variables.
+    #[inline(always)]
+    pub(crate) fn check_frozen(self) -> Result<(), RubyError> {
+        match self.as_rvalue() {
+            Some(_) => Ok(()),
+            None => Err(RubyError::runtime(format!(
+                "can't modify frozen {}",
+                self.get_class_name()
+            ))),
+        }
+    }
+
     #[inline(always)]
     pub(crate) fn set_var(self, id: IdentId, val: Value) -> Option<Value> {
         self.rvalue_mut().set_var(id, val)
@@ -471,7 +483,7 @@ impl Value {
 
     #[inline(always)]
     pub(crate) fn get_var(&self, id: IdentId) -> Option<Value> {
-        self.rvalue().get_var(id)
+        self.as_rvalue()?.get_var(id)
     }
 
     #[inline(always)]
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 9f69808..82e375c 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -694,15 +694,20 @@ impl VM {
 
 // Handling class variables.
 impl VM {
-    fn set_class_var(&self, id: IdentId, val: Value) -> Result<(), RubyError> {
-        if self.self_value().id() == self.globals.main_object.id() {
-            return Err(RubyError::runtime("class varable access from toplevel."));
+    /// Get the innermost lexical class (excluding singleton classes), which class variables belong to.
+    fn get_class_for_class_var(&self) -> Result<Module, RubyError> {
+        let class_defined = &self.get_method_iseq().class_defined;
+        match class_defined.iter().rev().find(|m| !m.is_singleton()) {
+            Some(class) => Ok(*class),
+            None => Err(RubyError::runtime("class varable access from toplevel.")),
         }
-        let self_val = self.self_value();
-        let org_class = self.globals.get_class_if_object(self_val);
+    }
+
+    fn set_class_var(&self, id: IdentId, val: Value) -> Result<(), RubyError> {
+        let org_class = self.get_class_for_class_var()?;
         let mut class = org_class;
         loop {
-            if class.set_var_if_exists(id, val) {
+            if class.real_module().set_var_if_exists(id, val) {
                 return Ok(());
             } else {
                 match class.upper() {
@@ -717,13 +722,9 @@ impl VM {
     }
 
     fn get_class_var(&self, id: IdentId) -> VMResult {
-        if self.self_value().id() == self.globals.main_object.id() {
-            return Err(RubyError::runtime("class varable access from toplevel."));
-        }
-        let self_val = self.self_value();
-        let mut class = self.globals.get_class_if_object(self_val);
+        let mut class = self.get_class_for_class_var()?;
         loop {
-            match class.get_var(id) {
+            match class.real_module().get_var(id) {
                 Some(val) => {
                     return Ok(val);
                 }
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index e658b23..ab2f092 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -592,7 +592,7 @@ impl VM {
                 oref.set_var(id, val);
                 Ok(val)
             }
-            None => unreachable!("AttrReader must be used only for class instance."),
+            None => Err(self_val.check_frozen().unwrap_err()),
         }
     }
 }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index b1fb127..978eecd 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -296,6 +296,7 @@ impl VM {
                     Inst::SET_IVAR => {
                         let var_id = self.pc.read_id();
                         let new_val = self.stack_pop();
+                        self_val.check_frozen()?;
                         self_val.set_var(var_id, new_val);
                     }
                     Inst::GET_IVAR => {
-- 
2.43.0


From d9c1a5b835eba7290b7a4e51efd657def30cab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:36 +0000
Subject: [PATCH 34/57] fix: the interactive shell re-evaluated an input whose
 evaluation raised a SyntaxError for incomplete code

---
 ruruby/src/vm/executor/method.rs | 11 ++++++++++-
 ruruby/src/vm/executor/repl.rs   | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index ab2f092..e90ca84 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -342,9 +342,18 @@ impl VM {
         &mut self,
         path: String,
         code: String,
-        mut binding_context: EnvFrame,
+        binding_context: EnvFrame,
     ) -> VMResult {
         let id = self.parse_program_binding(path, code, binding_context)?;
+        self.eval_parsed_binding(id, binding_context)
+    }
+
+    /// Evaluate a program already parsed in *binding_context*.
+    pub(super) fn eval_parsed_binding(
+        &mut self,
+        id: FnId,
+        mut binding_context: EnvFrame,
+    ) -> VMResult {
         let iseq = self.globals.methods[id].as_iseq();
         binding_context.set_iseq(iseq);
         self.push_block_frame_from_binding(binding_context);
diff --git a/ruruby/src/vm/executor/repl.rs b/ruruby/src/vm/executor/repl.rs
index 6d4110b..1c1ad90 100644
--- a/ruruby/src/vm/executor/repl.rs
+++ b/ruruby/src/vm/executor/repl.rs
@@ -56,16 +56,18 @@ impl VM {
 
             script += &line;
             {
-                match self.eval_binding("REPL".to_string(), script.clone(), context) {
+                // Only an incomplete input is continued on the next line. An error of
+                // the same kind raised by the evaluation (e.g. by eval) must not cause
+                // the input to be evaluated again.
+                let parsed = self.parse_program_binding("REPL".to_string(), script.clone(), context);
+                if let Err(err) = &parsed {
+                    if let RubyErrorKind::ParseErr(ParseErrKind::UnexpectedEOF) = err.kind {
+                        continue;
+                    }
+                }
+                match parsed.and_then(|id| self.eval_parsed_binding(id, context)) {
                     Ok(res) => println!("=> {:?}", res),
                     Err(err) => match &err.kind {
-                        RubyErrorKind::ParseErr(kind) => match kind {
-                            ParseErrKind::UnexpectedEOF => continue,
-                            _ => {
-                                self.show_err(&err);
-                                err.show_loc(0);
-                            }
-                        },
                         RubyErrorKind::SystemExit(code) => {
                             eprintln!("exited with code {}", *code as i32);
                             return Ok(Value::fixnum(*code));
-- 
2.43.0


From c5cbd7c48f7072ea69c9040ef4da1870c1c911e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 35/57] fix: show source locations in texts with multibyte
 characters

---
 ruruby-common/src/source_info.rs | 38 +++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/ruruby-common/src/source_info.rs b/ruruby-common/src/source_info.rs
index 3719e5e..628812b 100644
--- a/ruruby-common/src/source_info.rs
+++ b/ruruby-common/src/source_info.rs
@@ -62,8 +62,30 @@ impl SourceInfo {
         eprint!("{}", self.get_location(loc));
     }
 
+    /// The start of the char which the byte `pos` belongs to.
+    fn char_start(&self, pos: usize) -> usize {
+        let mut pos = pos.min(self.code.len());
+        while !self.code.is_char_boundary(pos) {
+            pos -= 1;
+        }
+        pos
+    }
+
+    /// The text from the char at `start` to before the char at `end`.
+    fn text_before(&self, start: usize, end: usize) -> &str {
+        let start = self.char_start(start);
+        &self.code[start..self.char_start(end).max(start)]
+    }
+
+    /// The text from the char at `start` to the char at `end` (inclusive).
+    fn text_through(&self, start: usize, end: usize) -> &str {
+        let end = self.char_start(end);
+        let len = self.get_next_char(end).map_or(0, |ch| ch.len_utf8());
+        self.text_before(start, end + len)
+    }
+
     fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
+        self.code[self.char_start(pos)..].chars().next()
     }
 
     pub fn get_lines(&self, loc: &Loc) -> Vec<Line> {
@@ -107,17 +129,17 @@ impl SourceInfo {
             if self.get_next_char(end) == Some('\n') && end > 0 {
                 end -= 1
             }
-            res_string += &self.code[start..=end];
+            res_string += self.text_through(start, end);
             res_string.push('\n');
             use std::cmp::*;
             let lead = if loc.0 <= line.top {
                 0
             } else {
-                console::measure_text_width(&self.code[start..loc.0])
+                console::measure_text_width(self.text_before(start, loc.0))
             };
             let range_start = max(loc.0, line.top);
             let range_end = min(loc.1, line.end);
-            let length = console::measure_text_width(&self.code[range_start..=range_end]);
+            let length = console::measure_text_width(self.text_through(range_start, range_end));
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length);
             res_string += "\n";
@@ -129,14 +151,14 @@ impl SourceInfo {
                 Some(line) => (line.no + 1, line.end + 1, loc.1),
                 None => (1, 0, loc.1),
             };
-            let lead = console::measure_text_width(&self.code[line.1..loc.0]);
-            let length = console::measure_text_width(&self.code[loc.0..loc.1]);
+            let lead = console::measure_text_width(self.text_before(line.1, loc.0));
+            let length = console::measure_text_width(self.text_before(loc.0, loc.1));
             let is_cr = loc.1 >= self.code.len() || self.get_next_char(loc.1) == Some('\n');
             res_string += &format!("{}:{}\n", self.path.to_string_lossy(), line.0);
             res_string += if !is_cr {
-                &self.code[line.1..=loc.1]
+                self.text_through(line.1, loc.1)
             } else {
-                &self.code[line.1..loc.1]
+                self.text_before(line.1, loc.1)
             };
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length + 1);
-- 
2.43.0


From a2a2f5122e4f4221b22dadfdb4dcc0d3259b4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 36/57] fix: parse here documents in the context they appear
 in, and all kinds of variables in templates

---
 ruruby-parse/src/parser/literals.rs | 73 ++++++++++++++++-------------
 ruruby/src/codegen.rs               |  9 ++--
 2 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index d6596cb..05b72bb 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -130,32 +130,31 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 Node::new_string(self.lexer.code[start..end].to_string(), Loc(start, end))
             }
             ParseMode::Double => {
-                let mut parser = self.new_with_range(start, end);
-                let tok = parser.lexer.read_string_literal_double(None, None, 0)?;
-                let loc = tok.loc();
-                match tok.kind {
-                    TokenKind::StringLit(s) => Node::new_string(s, loc),
-                    TokenKind::OpenString(s, term, level) => {
-                        return parser.parse_interporated_string_literal(&s, term, level);
+                self.parse_with_range(start, end, |parser| {
+                    let tok = parser.lexer.read_string_literal_double(None, None, 0)?;
+                    let loc = tok.loc();
+                    match tok.kind {
+                        TokenKind::StringLit(s) => Ok(Node::new_string(s, loc)),
+                        TokenKind::OpenString(s, term, level) => {
+                            parser.parse_interporated_string_literal(&s, term, level)
+                        }
+                        _ => unreachable!(),
                     }
-                    _ => unreachable!(),
-                }
+                })?
             }
             ParseMode::Command => {
-                let mut parser = self.new_with_range(start, end);
-                let tok = parser.lexer.read_command_literal(None, None, 0)?;
-                let loc = tok.loc();
-                match tok.kind {
-                    TokenKind::CommandLit(s) => {
-                        let content = Node::new_string(s, loc);
-                        Node::new_command(content)
-                    }
-                    TokenKind::OpenString(s, term, level) => {
-                        let content = parser.parse_interporated_string_literal(&s, term, level)?;
-                        Node::new_command(content)
-                    }
-                    _ => unreachable!(),
-                }
+                self.parse_with_range(start, end, |parser| {
+                    let tok = parser.lexer.read_command_literal(None, None, 0)?;
+                    let loc = tok.loc();
+                    let content = match tok.kind {
+                        TokenKind::CommandLit(s) => Node::new_string(s, loc),
+                        TokenKind::OpenString(s, term, level) => {
+                            parser.parse_interporated_string_literal(&s, term, level)?
+                        }
+                        _ => unreachable!(),
+                    };
+                    Ok(Node::new_command(content))
+                })?
             }
         };
         Ok(node)
@@ -197,7 +196,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             };
             let value = self.parse_arg()?;
             kvp.push((key, value));
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_punct_no_term(Punct::Comma)? {
                 break;
             };
         }
@@ -307,24 +306,34 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             let node = match &tok.kind {
                 TokenKind::GlobalVar(s) => Node::new_global_var(s, loc),
                 TokenKind::InstanceVar(s) => Node::new_instance_var(s, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::SpecialVar(id) => Node::new_special_var(*id, loc),
+                TokenKind::ClassVar(s) => Node::new_class_var(s, loc),
+                _ => return Err(error_unexpected(loc, "Unexpected token in a template.")),
             };
             nodes.push(node);
         };
         Ok(())
     }
 
-    fn new_with_range(&self, pos: usize, end: usize) -> Self {
-        let lexer = self.lexer.new_with_range(pos, end);
-        Parser {
-            lexer,
+    /// Parse a part (from `pos` to `end`) of the code with `f`, in the current contexts.
+    fn parse_with_range(
+        &mut self,
+        pos: usize,
+        end: usize,
+        f: impl FnOnce(&mut Self) -> Result<Node, ParseErr>,
+    ) -> Result<Node, ParseErr> {
+        let mut parser = Parser {
+            lexer: self.lexer.new_with_range(pos, end),
             path: self.path.clone(),
             prev_loc: Loc(0, 0),
-            context_stack: vec![],
-            extern_context: None,
+            context_stack: std::mem::take(&mut self.context_stack),
+            extern_context: self.extern_context,
             suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
-        }
+        };
+        let res = f(&mut parser);
+        self.context_stack = parser.context_stack;
+        res
     }
 }
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index ed1411d..91f4233 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -985,12 +985,12 @@ impl Codegen {
                             iseq.push(Inst::TO_S);
                             c += 1;
                         }
-                        NodeKind::GlobalVar(id) => {
-                            iseq.gen_get_global_var(id);
+                        // #$gvar, #@ivar, #@@cvar
+                        _ => {
+                            self.gen(globals, iseq, node, true)?;
                             iseq.push(Inst::TO_S);
                             c += 1;
                         }
-                        _ => unimplemented!("Illegal arguments in Nodekind::InterporatedString."),
                     }
                 }
                 iseq.gen_concat(c);
@@ -1016,7 +1016,8 @@ impl Codegen {
                                 iseq.push(Inst::TO_S);
                             }
                             _ => {
-                                unimplemented!("Illegal arguments in Nodekind::InterporatedString.")
+                                self.gen(globals, iseq, node, true)?;
+                                iseq.push(Inst::TO_S);
                             }
                         }
                     }
-- 
2.43.0


From 5bbdd1b6894bc731556cda70a6ca34950e84c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 37/57] fix: receiver of a singleton method definition can be a
 method call

---
 ruruby-parse/src/parser/define.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ruruby-parse/src/parser/define.rs b/ruruby-parse/src/parser/define.rs
index 907e298..1d863e1 100644
--- a/ruruby-parse/src/parser/define.rs
+++ b/ruruby-parse/src/parser/define.rs
@@ -43,8 +43,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
                     let id = IdentId::get_id(s);
+                    let receiver = if self.is_local_var(id) {
+                        Node::new_lvar(id, loc)
+                    } else {
+                        Node::new_identifier(s, loc)
+                    };
                     (
-                        Some(Node::new_lvar(id, loc)),
+                        Some(receiver),
                         self.lexer.read_method_name(true)?.0,
                     )
                 } else {
-- 
2.43.0


From 97ad3e11b3c7aee0272d970802ca0e3475f82928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 38/57] fix: report unexpected ends of text and misplaced
 semicolons as syntax errors

---
 ruruby-parse/src/parser.rs              |  8 ++++++--
 ruruby-parse/src/parser/expression.rs   |  5 +++--
 ruruby-parse/src/parser/flow_control.rs |  1 +
 ruruby-parse/src/parser/lexer.rs        | 26 ++++++++++++-------------
 ruruby-parse/src/token.rs               |  2 +-
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 769e977..1e5e833 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -214,11 +214,15 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     /// Examine the next token, and return true if it is a line terminator.
     fn is_line_term(&mut self) -> Result<bool, ParseErr> {
-        Ok(self.peek_no_term()?.is_line_term())
+        Ok(self.peek_no_term()?.is_term())
     }
 
+    /// Location of the next token, or where the lexer failed to read it.
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            Err(err) => err.1,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 01698ab..6781779 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -12,6 +12,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn parse_comp_stmt_body(&mut self) -> Result<Node, ParseErr> {
+        while self.consume_punct(Punct::Semi)? {}
         self.peek()?;
         let loc = self.loc();
         let mut nodes = vec![];
@@ -225,7 +226,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let node = self.parse_arg()?;
                 args.push(node);
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_punct_no_term(Punct::Comma)? {
                 break;
             }
         }
@@ -943,7 +944,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     }
                 }
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_punct_no_term(Punct::Comma)? {
                 break;
             } else {
                 let loc = self.prev_loc();
diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index 4213a98..f5aab9f 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -118,6 +118,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let loc = self.prev_loc();
         let old = self.suppress_mul_assign;
         self.suppress_mul_assign = false;
+        self.consume_term()?;
         let cond = if self.peek()?.kind != TokenKind::Reserved(Reserved::When) {
             Some(self.parse_expr()?)
         } else {
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index bc4db3d..cbde5db 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -69,13 +69,13 @@ impl<'a> Lexer<'a> {
 
     fn error_unexpected(&self, pos: usize) -> ParseErr {
         let loc = Loc(pos, pos);
-        ParseErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code[pos..].chars().next() {
+            Some(ch) => ParseErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                loc,
+            ),
+            None => Lexer::error_eof(pos),
+        }
     }
 }
 
@@ -849,7 +849,11 @@ impl<'a> Lexer<'a> {
 
     /// Read char literal.
     pub(crate) fn read_char_literal(&mut self) -> Result<char, ParseErr> {
+        let pos = self.pos;
         let c = self.get()?;
+        if c.is_ascii_whitespace() {
+            return Err(self.error_unexpected(pos));
+        }
         self.flush();
         if c == '\\' {
             self.read_escaped_char()
@@ -1092,13 +1096,7 @@ impl<'a> Lexer<'a> {
             }
 
             if next.is_err() {
-                return Err(Self::error_parse(
-                    &format!(
-                        r#"Can not find string "{}" anywhere before EOF."#,
-                        &self.code[delimiter]
-                    ),
-                    self.pos,
-                ));
+                return Err(Self::error_eof(self.pos));
             };
             heredoc_end = end + 1;
             //res += line;
diff --git a/ruruby-parse/src/token.rs b/ruruby-parse/src/token.rs
index 78005da..681aa47 100644
--- a/ruruby-parse/src/token.rs
+++ b/ruruby-parse/src/token.rs
@@ -268,7 +268,7 @@ impl Token {
 impl Token {
     /// Examine the token, and return true if it is a line terminator.
     pub(crate) fn is_line_term(&self) -> bool {
-        self.kind == TokenKind::LineTerm || self.kind == TokenKind::Punct(Punct::Semi)
+        self.kind == TokenKind::LineTerm
     }
 
     /// Examine the token, and return true if it is EOF.
-- 
2.43.0


From 2cefa046e5adf936db42095ce4a1a47521c3877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:00 +0000
Subject: [PATCH 39/57] fix: crashes of builtin methods on unusual receivers
 and arguments

---
 ruruby-common/src/error.rs           | 11 ++++++++
 ruruby/src/arith.rs                  | 32 ++++++++++++++++++----
 ruruby/src/builtin.rs                |  1 +
 ruruby/src/builtin/array.rs          | 22 +++++++++++----
 ruruby/src/builtin/class.rs          | 26 ++++++++++++++++++
 ruruby/src/builtin/complex.rs        |  3 ++
 ruruby/src/builtin/float.rs          |  5 +++-
 ruruby/src/builtin/hash.rs           |  1 +
 ruruby/src/builtin/integer.rs        | 41 +++++++++++-----------------
 ruruby/src/builtin/kernel.rs         |  9 ++++--
 ruruby/src/builtin/module.rs         |  6 ++++
 ruruby/src/builtin/numeric.rs        |  5 ++--
 ruruby/src/builtin/object.rs         |  2 +-
 ruruby/src/builtin/regexp.rs         |  9 ++++++
 ruruby/src/builtin/string.rs         | 23 ++++++++++++----
 ruruby/src/builtin/time.rs           | 41 ++++++++++++++--------------
 ruruby/src/builtin/unbound_method.rs | 13 +++++++++
 ruruby/src/globals.rs                |  6 ++++
 ruruby/src/value/hash.rs             | 36 +++++++++++++++++++++---
 ruruby/src/value/real.rs             |  6 +++-
 ruruby/src/value/rvalue.rs           |  2 +-
 ruruby/src/value/value.rs            |  9 +++++-
 ruruby/src/vm/executor.rs            |  4 +++
 23 files changed, 237 insertions(+), 76 deletions(-)

diff --git a/ruruby-common/src/error.rs b/ruruby-common/src/error.rs
index e4bd6b6..82d98b5 100644
--- a/ruruby-common/src/error.rs
+++ b/ruruby-common/src/error.rs
@@ -67,6 +67,7 @@ pub enum RuntimeErrKind {
     Runtime,
     LoadError,
     Range,
+    FloatDomain,
     ZeroDivision,
     DomainError,
 }
@@ -88,6 +89,7 @@ impl std::fmt::Debug for RuntimeErrKind {
             Self::Range => write!(f, "RangeError"),
             Self::ZeroDivision => write!(f, "ZeroDivisionError"),
             Self::DomainError => write!(f, "Math::DomainError"),
+            Self::FloatDomain => write!(f, "FloatDomainError"),
         }
     }
 }
@@ -259,6 +261,15 @@ impl RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::Range, msg.into())
     }
 
+    pub fn float_domain(f: f64) -> RubyError {
+        let msg = match f {
+            f if f.is_nan() => "NaN",
+            f if f > 0.0 => "Infinity",
+            _ => "-Infinity",
+        };
+        RubyError::new_runtime_err(RuntimeErrKind::FloatDomain, msg.to_string())
+    }
+
     pub fn zero_div(msg: impl Into<String>) -> RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::ZeroDivision, msg.into())
     }
diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index c59cca3..65cf2aa 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -203,7 +203,7 @@ pub fn cmp_bignum(lhsb: &BigInt, rhs: Value) -> Option<std::cmp::Ordering> {
 /// ```
 pub fn shl_fixnum(lhs: i64, rhs: i64) -> VMResult {
     if rhs >= 0 {
-        Ok(shl_fixnum_sub(lhs, rhs))
+        shl_fixnum_sub(lhs, rhs)
     } else {
         Ok(shr_fixnum_sub(lhs, -rhs))
     }
@@ -223,7 +223,7 @@ pub fn shr_fixnum(lhs: i64, rhs: i64) -> VMResult {
     if rhs >= 0 {
         Ok(shr_fixnum_sub(lhs, rhs))
     } else {
-        Ok(shl_fixnum_sub(lhs, -rhs))
+        shl_fixnum_sub(lhs, -rhs)
     }
 }
 
@@ -240,8 +240,11 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
 }
 
 /// rhs must be a non-negative value.
-fn shl_fixnum_sub(lhs: i64, rhs: i64) -> Value {
-    if rhs < u32::MAX as i64 {
+fn shl_fixnum_sub(lhs: i64, rhs: i64) -> VMResult {
+    if lhs == 0 {
+        return Ok(Value::integer(0));
+    }
+    let val = if rhs < u32::MAX as i64 {
         match lhs.checked_shl(rhs as u32) {
             // No significant bit (nor the sign) was shifted out.
             Some(i) if i >> rhs == lhs => Value::integer(i),
@@ -251,7 +254,26 @@ fn shl_fixnum_sub(lhs: i64, rhs: i64) -> Value {
             }
         }
     } else {
-        Value::bignum(lhs.to_bigint().unwrap() << rhs)
+        return Err(RubyError::range("Shift width too big"));
+    };
+    Ok(val)
+}
+
+/// `lhs` << `rhs`
+pub fn shl_bigint(lhs: &BigInt, rhs: i64) -> VMResult {
+    match rhs {
+        0..=0xffff_fffe => Ok(Value::bignum(lhs << rhs)),
+        i if i > 0 => Err(RubyError::range("Shift width too big")),
+        i => shr_bigint(lhs, -i),
+    }
+}
+
+/// `lhs` >> `rhs`
+pub fn shr_bigint(lhs: &BigInt, rhs: i64) -> VMResult {
+    if rhs < 0 {
+        shl_bigint(lhs, -rhs)
+    } else {
+        Ok(Value::bignum(lhs >> rhs))
     }
 }
 
diff --git a/ruruby/src/builtin.rs b/ruruby/src/builtin.rs
index ec534f5..86c562c 100644
--- a/ruruby/src/builtin.rs
+++ b/ruruby/src/builtin.rs
@@ -163,6 +163,7 @@ impl BuiltinClass {
         init_builtin!(array, symbol, procobj, range, string, hash);
         init_builtin!(method, unbound_method, regexp, fiber, enumerator, binding);
         init!(math, dir, process, gc, structobj, time);
+        class::undef_allocators(globals);
     }
 
     pub(crate) fn object() -> Module {
diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index b9ea55c..2a0e663 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -98,6 +98,7 @@ fn array_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 if num < 0 {
                     return Err(RubyError::argument("Negative array size."));
                 };
+                check_size(num)?;
                 vec![Value::nil(); num as usize]
             }
             RV::Object(oref) => match oref.kind() {
@@ -111,6 +112,7 @@ fn array_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if num < 0 {
                 return Err(RubyError::argument("Negative array size."));
             };
+            check_size(num)?;
             vec![vm[1]; num as usize]
         }
         _ => unreachable!(),
@@ -120,6 +122,13 @@ fn array_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(array)
 }
 
+fn check_size(num: i64) -> Result<(), RubyError> {
+    if num > i32::MAX as i64 {
+        return Err(RubyError::argument("Array size too big."));
+    }
+    Ok(())
+}
+
 fn array_allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let array = Value::array_from_with_class(vec![], self_val.into_module());
@@ -135,15 +144,15 @@ fn array_elem(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
 
 fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
     fn checked_inspect(vm: &mut VM, self_val: Value, elem: Value) -> Result<String, RubyError> {
-        if elem.id() == self_val.id() {
-            Ok("[...]".to_string())
-        } else {
-            vm.val_inspect(elem)
-        }
+        vm.inspecting.push(self_val.id());
+        let res = vm.val_inspect(elem);
+        vm.inspecting.pop();
+        res
     }
     let ary = self_val.into_array();
     let s = match ary.len() {
         0 => "[]".to_string(),
+        _ if vm.inspecting.contains(&self_val.id()) => "[...]".to_string(),
         _ => {
             let mut result = checked_inspect(vm, self_val, ary[0])?;
             for elem in ary.live_iter().skip(1) {
@@ -309,6 +318,9 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(num) = vm[0].as_fixnum() {
         let v = match num {
             i if i < 0 => return Err(RubyError::argument("Negative argument.")),
+            i if ary.len() as u128 * i as u128 > i32::MAX as u128 => {
+                return Err(RubyError::argument("argument too big"))
+            }
             i => ary.repeat(i as usize),
         };
         let res = Value::array_from_with_class(v, vm.globals.get_class(self_val));
diff --git a/ruruby/src/builtin/class.rs b/ruruby/src/builtin/class.rs
index fc5e82c..2859e05 100644
--- a/ruruby/src/builtin/class.rs
+++ b/ruruby/src/builtin/class.rs
@@ -53,6 +53,32 @@ fn allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(new_instance)
 }
 
+/// Some classes have no way to make an instance with `allocate`, nor (unless they define it) with `new`.
+pub(crate) fn undef_allocators(globals: &mut Globals) {
+    for name in ["Integer", "Float", "Symbol", "Complex", "Method", "UnboundMethod"] {
+        let class = globals.get_toplevel_constant(name).into_module();
+        class.add_builtin_class_method(globals, "new", undefined_new);
+        class.add_builtin_class_method(globals, "allocate", undefined_allocate);
+    }
+    for name in [
+        "Class", "Range", "Regexp", "Proc", "Fiber", "Enumerator", "Binding", "Time",
+    ] {
+        let class = globals.get_toplevel_constant(name).into_module();
+        class.add_builtin_class_method(globals, "allocate", undefined_allocate);
+    }
+}
+
+fn undefined_new(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
+    Err(VMError::undefined_method(IdentId::NEW, self_val))
+}
+
+fn undefined_allocate(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
+    Err(RubyError::typeerr(format!(
+        "Allocator undefined for {}",
+        self_val.into_module().name()
+    )))
+}
+
 /// Get super class of `self`.
 fn superclass(_: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
     let self_val = self_val.into_module();
diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index ccbd5c7..50828d3 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -76,6 +76,9 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::typeerr("Not a real.")),
     };
     let abs2 = r2.clone().exp2() + i2.clone().exp2();
+    if abs2.is_zero() && !matches!((&r1, &i1, &abs2), (Real::Float(_), _, _) | (_, Real::Float(_), _) | (_, _, Real::Float(_))) {
+        return Err(RubyError::zero_div("Divided by 0."));
+    }
     let r = (r2.clone() * r1.clone() + i2.clone() * i1.clone()) / abs2.clone();
     let i = (r2 * i1 - r1 * i2) / abs2;
     Ok(Value::complex(r.into_val(), i.into_val()))
diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index 9c37169..f869baa 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -73,7 +73,10 @@ fn quotient(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if rhs.is_zero() {
                 return Err(RubyError::zero_div("Divided by zero."));
             }
-            Ok(lhs.quotient(rhs).into_val())
+            match lhs.quotient(rhs) {
+                Real::Float(f) => Err(RubyError::float_domain(f)),
+                quo => Ok(quo.into_val()),
+            }
         }
         None => Err(VMError::undefined_op("div", vm[0], self_val)),
     }
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index b6a2bc3..23a35a8 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -38,6 +38,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "invert", invert);
 
     class.add_builtin_class_method(globals, "new", hash_new);
+    class.add_builtin_class_method(globals, "allocate", hash_new);
     class.into()
 }
 
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 85df6de..2fadfbb 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -124,7 +124,10 @@ fn quotient(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if rhs.is_zero() {
                 return Err(RubyError::zero_div("Divided by zero."));
             }
-            Ok(lhs.quotient(rhs).into_val())
+            match lhs.quotient(rhs) {
+                Real::Float(f) => Err(RubyError::float_domain(f)),
+                quo => Ok(quo.into_val()),
+            }
         }
         None => Err(VMError::cant_coerse(vm[0], "Numeric")),
     }
@@ -193,31 +196,25 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shr_fixnum(lhs, rhs),
-            None => shr_bignum(rhs),
+            None => shr_bignum(lhs < 0, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
-            Some(rhs) => {
-                if rhs >= 0 {
-                    Ok(Value::bignum(lhs >> rhs))
-                } else {
-                    Ok(Value::bignum(lhs << -rhs))
-                }
-            }
-            None => shr_bignum(rhs),
+            Some(rhs) => arith::shr_bigint(lhs, rhs),
+            None => shr_bignum(lhs.is_negative(), rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shr_bignum(rhs: Value) -> VMResult {
+fn shr_bignum(negative: bool, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if !rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(Value::integer(if negative { -1 } else { 0 }))
             } else {
-                Err(RubyError::runtime("Shift width too big"))
+                Err(RubyError::range("Shift width too big"))
             }
         }
         None => Err(VMError::no_implicit_conv(rhs, "Integer")),
@@ -230,31 +227,25 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shl_fixnum(lhs, rhs),
-            None => shl_bignum(rhs),
+            None => shl_bignum(lhs < 0, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
-            Some(rhs) => {
-                if rhs >= 0 {
-                    Ok(Value::bignum(lhs << rhs))
-                } else {
-                    Ok(Value::bignum(lhs >> -rhs))
-                }
-            }
-            None => shl_bignum(rhs),
+            Some(rhs) => arith::shl_bigint(lhs, rhs),
+            None => shl_bignum(lhs.is_negative(), rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shl_bignum(rhs: Value) -> VMResult {
+fn shl_bignum(negative: bool, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(Value::integer(if negative { -1 } else { 0 }))
             } else {
-                Err(RubyError::runtime("Shift width too big"))
+                Err(RubyError::range("Shift width too big"))
             }
         }
         None => Err(VMError::no_implicit_conv(rhs, "Integer")),
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 776be8b..4c1883b 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -37,13 +37,16 @@ pub(crate) fn init(globals: &mut Globals) -> Module {
 }
 /// Built-in function "puts".
 fn puts(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
-    fn flatten(vm: &mut VM, val: Value) -> Result<(), RubyError> {
+    fn flatten(vm: &mut VM, val: Value, outer: &mut Vec<u64>) -> Result<(), RubyError> {
         match val.as_array() {
             None => println!("{}", val.val_to_s(vm)?),
+            Some(_) if outer.contains(&val.id()) => println!("[...]"),
             Some(aref) => {
+                outer.push(val.id());
                 for val in &**aref {
-                    flatten(vm, val.clone())?;
+                    flatten(vm, val.clone(), outer)?;
                 }
+                outer.pop();
             }
         }
         Ok(())
@@ -52,7 +55,7 @@ fn puts(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         println!();
     }
     for i in 0..vm.args().len() {
-        flatten(vm, vm[i])?;
+        flatten(vm, vm[i], &mut vec![])?;
     }
     Ok(Value::nil())
 }
diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 51c302d..661c9cc 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -4,6 +4,7 @@ pub(crate) fn init(globals: &mut Globals) {
     let class = BuiltinClass::module();
     globals.set_toplevel_constant("Module", class);
     class.add_builtin_class_method(globals, "new", module_new);
+    class.add_builtin_class_method(globals, "allocate", module_allocate);
     class.add_builtin_class_method(globals, "constants", module_constants);
 
     class.add_builtin_method_by_str(globals, "===", teq);
@@ -41,6 +42,11 @@ pub(crate) fn init(globals: &mut Globals) {
     class.add_builtin_method_by_str(globals, "private_class_method", private_class_method);
 }
 
+fn module_allocate(_: &mut VM, _: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    Ok(Module::module().into())
+}
+
 /// ## singleton method Module.new
 /// - new -> Module
 /// - new {|mod| ... } -> Module
diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index 9ba9ebd..00ad734 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -20,7 +20,7 @@ pub(crate) fn init(globals: &mut Globals) -> Module {
 }
 
 // Instance methods
-fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn inspect(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let s = match self_val.to_real() {
         Some(r) => match r {
@@ -37,7 +37,8 @@ fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     format!("({:?}{:?}i)", r, i)
                 }
             }
-            None => unreachable!(),
+            // an instance of a user-defined subclass
+            None => return object::inspect(vm, self_val, args),
         },
     };
     Ok(Value::string(s))
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 8d3207b..87d8e00 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -69,7 +69,7 @@ fn to_s(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::string(s))
 }
 
-fn inspect(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
+pub(crate) fn inspect(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     match self_val.as_rvalue() {
         Some(oref) => Ok(Value::string(oref.inspect()?)),
         None => Ok(Value::string(vm.val_inspect(self_val)?)),
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index ed2156c..a108711 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -251,6 +251,11 @@ impl RegexpInfo {
                 Ok(Some(captures)) => {
                     let m = captures.get(0).unwrap();
                     idx = m.end();
+                    let is_last = idx >= given.len();
+                    if m.start() == m.end() {
+                        // Go on after the next char.
+                        idx += given[idx..].chars().next().map_or(0, |ch| ch.len_utf8());
+                    }
                     match captures.len() {
                         1 => {
                             let val = Value::string(&given[m.start()..m.end()]);
@@ -270,7 +275,11 @@ impl RegexpInfo {
                             ary.push(val);
                         }
                     }
+                    let is_empty = m.start() == m.end();
                     last_captures = Some(captures);
+                    if is_empty && is_last {
+                        break;
+                    }
                 }
                 Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
             };
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 3613d41..655bdbb 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -6,6 +6,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("String", class);
     class.add_builtin_class_method(globals, "new", string_new);
+    class.add_builtin_class_method(globals, "allocate", string_allocate);
     class.add_builtin_method_by_str(globals, "to_s", to_s);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "dump", dump);
@@ -79,6 +80,13 @@ fn string_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(array)
 }
 
+fn string_allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    let string = Value::string(String::new());
+    string.set_class(self_val.into_module());
+    Ok(string)
+}
+
 fn to_s(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     Ok(self_val)
@@ -1060,11 +1068,14 @@ fn ge(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
-fn gen_pad(padding: &str, len: usize) -> String {
+fn gen_pad(padding: &str, len: usize) -> Result<String, RubyError> {
+    if len > i32::MAX as usize {
+        return Err(RubyError::argument("argument too big"));
+    }
     let pad_len = padding.chars().count();
     let pad_repeat = padding.repeat(len / pad_len);
     let pad_end: String = padding.chars().take(len % pad_len).collect();
-    format!("{}{}", pad_repeat, pad_end)
+    Ok(format!("{}{}", pad_repeat, pad_end))
 }
 
 fn center(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -1088,9 +1099,9 @@ fn center(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let tail = width as usize - str_len - head;
     return Ok(Value::string(format!(
         "{}{}{}",
-        gen_pad(&padding, head),
+        gen_pad(&padding, head)?,
         lhs,
-        gen_pad(&padding, tail)
+        gen_pad(&padding, tail)?
     )));
 }
 
@@ -1112,7 +1123,7 @@ fn ljust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         return Ok(Value::string(lhs));
     }
     let tail = width as usize - str_len;
-    Ok(Value::string(format!("{}{}", lhs, gen_pad(&padding, tail))))
+    Ok(Value::string(format!("{}{}", lhs, gen_pad(&padding, tail)?)))
 }
 
 fn rjust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -1133,7 +1144,7 @@ fn rjust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         return Ok(Value::string(lhs));
     }
     let tail = width as usize - str_len;
-    Ok(Value::string(format!("{}{}", gen_pad(&padding, tail), lhs)))
+    Ok(Value::string(format!("{}{}", gen_pad(&padding, tail)?, lhs)))
 }
 
 /// https://docs.ruby-lang.org/ja/latest/class/String.html#I_NEXT
diff --git a/ruruby/src/builtin/time.rs b/ruruby/src/builtin/time.rs
index b37a988..21cef64 100644
--- a/ruruby/src/builtin/time.rs
+++ b/ruruby/src/builtin/time.rs
@@ -28,30 +28,26 @@ impl std::ops::Sub<Self> for TimeInfo {
     }
 }
 
-impl std::ops::Sub<Duration> for TimeInfo {
-    type Output = Self;
-    fn sub(self, rhs: Duration) -> Self::Output {
-        match self {
-            TimeInfo::Local(t) => Self::Local(t - rhs),
-            TimeInfo::UTC(t) => Self::UTC(t - rhs),
-        }
-    }
+/// `secs` seconds, or None if they are out of range.
+fn seconds(secs: i64) -> Option<Duration> {
+    secs.checked_mul(1000).map(Duration::milliseconds)
 }
 
-impl std::ops::Add<Duration> for TimeInfo {
-    type Output = Self;
-    fn add(self, rhs: Duration) -> Self::Output {
-        match self {
-            TimeInfo::Local(t) => Self::Local(t + rhs),
-            TimeInfo::UTC(t) => Self::UTC(t + rhs),
-        }
-    }
+/// `time` + `offset`.
+fn shift(time: TimeInfo, offset: Option<Duration>) -> Result<TimeInfo, RubyError> {
+    offset
+        .and_then(|offset| match time {
+            TimeInfo::Local(t) => t.checked_add_signed(offset).map(TimeInfo::Local),
+            TimeInfo::UTC(t) => t.checked_add_signed(offset).map(TimeInfo::UTC),
+        })
+        .ok_or_else(|| RubyError::range("Time is out of range."))
 }
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Time", class);
     class.add_builtin_class_method(globals, "now", time_now);
+    class.add_builtin_class_method(globals, "new", time_now);
     class.add_builtin_class_method(globals, "utc", time_utc);
     class.add_builtin_class_method(globals, "gm", time_utc);
 
@@ -189,18 +185,21 @@ fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     match arg0.unpack() {
         RV::Integer(i) => {
-            let res = time - Duration::seconds(i);
+            let res = shift(time, seconds(i).map(|d| -d))?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Float(f) => {
             let offset = (f * 1000.0 * 1000.0 * 1000.0) as i64;
-            let res = time - Duration::nanoseconds(offset);
+            let res = shift(time, Some(-Duration::nanoseconds(offset)))?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Object(rv) => match rv.kind() {
             ObjKind::TIME => {
                 let res = time - rv.time().clone();
-                let offset = (res.num_nanoseconds().unwrap() as f64) / 1000.0 / 1000.0 / 1000.0;
+                let offset = match res.num_nanoseconds() {
+                    Some(nanos) => (nanos as f64) / 1000.0 / 1000.0 / 1000.0,
+                    None => (res.num_milliseconds() as f64) / 1000.0,
+                };
                 Ok(Value::float(offset))
             }
             _ => return Err(VMError::undefined_op("-", arg0, self_val)),
@@ -223,12 +222,12 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     match arg0.unpack() {
         RV::Integer(i) => {
-            let res = time + Duration::seconds(i);
+            let res = shift(time, seconds(i))?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Float(f) => {
             let offset = (f * 1000.0 * 1000.0 * 1000.0) as i64;
-            let res = time + Duration::nanoseconds(offset);
+            let res = shift(time, Some(Duration::nanoseconds(offset)))?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         _ => return Err(VMError::undefined_op("+", arg0, self_val)),
diff --git a/ruruby/src/builtin/unbound_method.rs b/ruruby/src/builtin/unbound_method.rs
index 375c0d7..3b6fa1a 100644
--- a/ruruby/src/builtin/unbound_method.rs
+++ b/ruruby/src/builtin/unbound_method.rs
@@ -11,9 +11,21 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.into()
 }
 
+/// A method of a class can be bound only to an instance of the class.
+fn check_receiver(vm: &VM, owner: Module, receiver: Value) -> Result<(), RubyError> {
+    if owner.is_module() || vm.globals.kind_of(receiver, owner.into()) {
+        return Ok(());
+    }
+    Err(RubyError::typeerr(format!(
+        "Bind argument must be an instance of {}.",
+        owner.inspect()
+    )))
+}
+
 pub(crate) fn bind(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let method = self_val.as_unbound_method().unwrap();
+    check_receiver(vm, method.owner, vm[0])?;
     let res = Value::method(method.name, vm[0], method.method, method.owner);
     Ok(res)
 }
@@ -21,6 +33,7 @@ pub(crate) fn bind(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 pub(crate) fn bind_call(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
     let method = self_val.as_unbound_method().unwrap();
+    check_receiver(vm, method.owner, vm[0])?;
     let (mut src, mut len) = vm.args_range();
     src += 1;
     len -= 1;
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 0b98cdc..f7e8e3c 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -252,6 +252,12 @@ impl Globals {
                     let err_class = self.get_toplevel_constant("RangeError").into_module();
                     Value::exception(err_class, err)
                 }
+                RuntimeErrKind::FloatDomain => {
+                    let err_class = self
+                        .get_toplevel_constant("FloatDomainError")
+                        .into_module();
+                    Value::exception(err_class, err)
+                }
                 RuntimeErrKind::Index => {
                     let err_class = self.get_toplevel_constant("IndexError").into_module();
                     Value::exception(err_class, err)
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 213d99a..895ce17 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -11,10 +11,30 @@ pub enum HashInfo {
 
 impl Hash for HashInfo {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        match self {
+        visit_once(self as *const HashInfo as usize, || match self {
             HashInfo::Map(h) => hash_pairs(h.iter()).hash(state),
             HashInfo::IdentMap(h) => hash_pairs(h.iter()).hash(state),
+        })
+    }
+}
+
+thread_local! {
+    static VISITING: std::cell::RefCell<Vec<usize>> = std::cell::RefCell::new(vec![]);
+}
+
+/// Do `f` unless it is being done for the same (recursive) object.
+pub(crate) fn visit_once(addr: usize, f: impl FnOnce()) {
+    let visiting = VISITING.with(|v| {
+        let mut v = v.borrow_mut();
+        let visiting = v.contains(&addr);
+        if !visiting {
+            v.push(addr);
         }
+        visiting
+    });
+    if !visiting {
+        f();
+        VISITING.with(|v| v.borrow_mut().pop());
     }
 }
 
@@ -77,7 +97,9 @@ impl Hash for HashKey {
                 ObjKind::BIGNUM => lhs.bignum().hash(state),
                 ObjKind::FLOAT => lhs.float().to_bits().hash(state),
                 ObjKind::STRING => lhs.string().hash(state),
-                ObjKind::ARRAY => lhs.array().hash(state),
+                ObjKind::ARRAY => {
+                    visit_once(lhs.id() as usize, || lhs.array().hash(state))
+                }
                 ObjKind::RANGE => lhs.range().hash(state),
                 ObjKind::HASH => lhs.rhash().hash(state),
                 ObjKind::METHOD => lhs.method().hash(state),
@@ -309,16 +331,22 @@ impl HashInfo {
     }
 
     pub(crate) fn to_s(&self, vm: &mut VM) -> Result<String, RubyError> {
+        let addr = self as *const HashInfo as u64;
         let s = match self.len() {
             0 => "{}".to_string(),
+            _ if vm.inspecting.contains(&addr) => "{...}".to_string(),
             _ => {
                 let mut result = "".to_string();
                 let mut first = true;
                 // `inspect` of an element may change the hash.
                 let pairs: Vec<(Value, Value)> = self.iter().collect();
                 for (k, v) in pairs {
-                    let k_inspect = vm.val_inspect(k)?;
-                    let v_inspect = vm.val_inspect(v)?;
+                    vm.inspecting.push(addr);
+                    let pair = vm
+                        .val_inspect(k)
+                        .and_then(|k| Ok((k, vm.val_inspect(v)?)));
+                    vm.inspecting.pop();
+                    let (k_inspect, v_inspect) = pair?;
                     result = if first {
                         format!("{}=>{}", k_inspect, v_inspect)
                     } else {
diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index 4d25c45..056a024 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -64,7 +64,11 @@ impl Real {
         let quo = (self.to_f64() / other.to_f64()).floor();
         match ToPrimitive::to_i64(&quo) {
             Some(i) => Real::Integer(i),
-            None => Real::Bignum(FromPrimitive::from_f64(quo).unwrap()),
+            None => match FromPrimitive::from_f64(quo) {
+                Some(n) => Real::Bignum(n),
+                // NaN or infinity
+                None => Real::Float(quo),
+            },
         }
     }
 
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index b11268e..9596b13 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -87,7 +87,7 @@ impl std::hash::Hash for RValue {
             ObjKind::FLOAT => self.float().to_bits().hash(state),
             ObjKind::COMPLEX => self.complex().hash(state),
             ObjKind::STRING => self.string().hash(state),
-            ObjKind::ARRAY => self.array().hash(state),
+            ObjKind::ARRAY => visit_once(self.id() as usize, || self.array().hash(state)),
             ObjKind::RANGE => self.range().hash(state),
             ObjKind::HASH => self.rhash().hash(state),
             ObjKind::METHOD | ObjKind::UNBOUND_METHOD => self.method().hash(state),
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 4db6e0f..115b27b 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -567,7 +567,14 @@ impl Value {
     pub(crate) fn coerce_to_fixnum(&self, _msg: &str) -> Result<i64, RubyError> {
         match self.unpack() {
             RV::Integer(i) => Ok(i),
-            RV::Float(f) => Ok(f.trunc() as i64),
+            RV::Float(f) if !f.is_finite() => Err(RubyError::float_domain(f)),
+            RV::Float(f) => match num::ToPrimitive::to_i64(&f.trunc()) {
+                Some(i) => Ok(i),
+                None => Err(RubyError::range(format!(
+                    "float {} out of range of integer",
+                    f
+                ))),
+            },
             _ => Err(VMError::cant_coerse(*self, "Fixnum")),
         }
     }
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 82e375c..e303f1c 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -42,6 +42,8 @@ pub struct VM {
     sp_post_match: Option<String>,   // $'        : Regexp.post_match
     sp_matches: Vec<Option<String>>, // $1 ... $n : Regexp.last_match(n)
     pub gc_count: usize,
+    /// Arrays and hashes whose `inspect` is in progress.
+    pub(crate) inspecting: Vec<u64>,
 }
 
 pub type VMRef = Ref<VM>;
@@ -109,6 +111,7 @@ impl VM {
             sp_post_match: None,
             sp_matches: vec![],
             gc_count: 0,
+            inspecting: vec![],
         };
         let mut vm = VMRef::new(vm);
         globals.main_fiber = Some(vm);
@@ -167,6 +170,7 @@ impl VM {
             sp_post_match: None,
             sp_matches: vec![],
             gc_count: 0,
+            inspecting: vec![],
         };
         vm.init_frame();
         vm
-- 
2.43.0


From 139c8a041a40cf942896dbf8ad59f70f516ef7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:39 +0000
Subject: [PATCH 40/57] fix: iterate over ranges of strings and big integers,
 and up to any limit

---
 ruruby/src/arith.rs           |  77 +++++++++++++++
 ruruby/src/builtin/integer.rs |  94 +++++--------------
 ruruby/src/builtin/range.rs   | 170 ++++++++++++++++++++--------------
 ruruby/src/builtin/string.rs  |   2 +-
 ruruby/src/value/value.rs     |  10 ++
 5 files changed, 211 insertions(+), 142 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index 65cf2aa..bd54d59 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -227,6 +227,83 @@ pub fn shr_fixnum(lhs: i64, rhs: i64) -> VMResult {
     }
 }
 
+/// Integers from `cur` by `step`.
+pub(crate) enum IntIter {
+    Small { cur: Option<i64>, last: i64, step: i64 },
+    Big { cur: BigInt, last: Option<BigInt>, step: BigInt },
+}
+
+impl IntIter {
+    /// Integers from `start` to `limit` (any real number) by `step`.
+    ///
+    /// Return None if `start` or `step` is not an Integer, or `limit` is not a real number.
+    pub(crate) fn new(start: Value, limit: Value, exclude: bool, step: Value) -> Option<Self> {
+        let cur = start.to_bigint()?;
+        let step = step.to_bigint()?;
+        let negative = step.is_negative();
+        let one = BigInt::from(if negative { -1 } else { 1 });
+        let last = match limit.to_real()? {
+            Real::Integer(i) => Some(BigInt::from(i) - if exclude { one } else { BigInt::zero() }),
+            Real::Bignum(n) => Some(n - if exclude { one } else { BigInt::zero() }),
+            // No integer is in the sequence.
+            Real::Float(f) if f.is_nan() => Some(&cur - one),
+            Real::Float(f) if f.is_infinite() => match negative == (f < 0.0) {
+                true => None,
+                false => Some(&cur - one),
+            },
+            Real::Float(f) => {
+                let i = (if negative { f.ceil() } else { f.floor() }).to_bigint()?;
+                Some(i - if exclude && f.fract() == 0.0 { one } else { BigInt::zero() })
+            }
+        };
+        let small = match (cur.to_i64(), last.as_ref().and_then(|n| n.to_i64()), step.to_i64()) {
+            (Some(cur), Some(last), Some(step)) => Some((cur, last, step)),
+            _ => None,
+        };
+        Some(match small {
+            Some((cur, last, step)) => IntIter::Small {
+                cur: Some(cur).filter(|cur| Self::is_in(cur, &last, negative)),
+                last,
+                step,
+            },
+            None => IntIter::Big { cur, last, step },
+        })
+    }
+
+    fn is_in<T: PartialOrd>(cur: &T, last: &T, negative: bool) -> bool {
+        if negative {
+            cur >= last
+        } else {
+            cur <= last
+        }
+    }
+}
+
+impl Iterator for IntIter {
+    type Item = Value;
+    fn next(&mut self) -> Option<Value> {
+        match self {
+            IntIter::Small { cur, last, step } => {
+                let val = (*cur)?;
+                *cur = val
+                    .checked_add(*step)
+                    .filter(|next| Self::is_in(next, last, *step < 0));
+                Some(Value::integer(val))
+            }
+            IntIter::Big { cur, last, step } => {
+                if let Some(last) = last {
+                    if !Self::is_in(cur, last, step.is_negative()) {
+                        return None;
+                    }
+                }
+                let val = Value::bignum(cur.clone());
+                *cur += &*step;
+                Some(val)
+            }
+        }
+    }
+}
+
 /// rhs must be a non-negative value.
 fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 2fadfbb..a35036c 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -367,15 +367,18 @@ fn upto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let num = self_val.as_fixnum().unwrap();
-    let max = vm[0].coerce_to_fixnum("Arg")?;
-    if num <= max {
-        let iter = (num..max + 1).map(|i| Value::integer(i));
-        vm.eval_block_each1_iter(block, iter, self_val)
-        //Ok(self_val)
-    } else {
-        Ok(self_val)
-    }
+    let iter = int_iter(self_val, vm[0], Value::integer(1))?;
+    vm.eval_block_each1_iter(block, iter, self_val)
+}
+
+/// Integers from `start` to `limit` by `step`.
+fn int_iter(start: Value, limit: Value, step: Value) -> Result<arith::IntIter, RubyError> {
+    arith::IntIter::new(start, limit, false, step).ok_or_else(|| {
+        RubyError::argument(format!(
+            "Comparison of Integer with {:?} failed.",
+            limit
+        ))
+    })
 }
 
 /// Integer#downto(min) { |n| .. } -> self
@@ -391,53 +394,8 @@ fn downto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let num = self_val.as_fixnum().unwrap();
-    let min = vm[0].coerce_to_fixnum("Arg")?;
-    if num >= min {
-        let iter = (min..num + 1).rev().map(|i| Value::integer(i));
-        //Ok(self_val)
-        vm.eval_block_each1_iter(block, iter, self_val)
-    } else {
-        Ok(self_val)
-    }
-}
-
-struct PosStep {
-    cur: i64,
-    limit: i64,
-    step: i64, // must be > 0
-}
-
-impl Iterator for PosStep {
-    type Item = Value;
-    fn next(&mut self) -> Option<Self::Item> {
-        if self.cur > self.limit {
-            None
-        } else {
-            let v = Value::integer(self.cur);
-            self.cur += self.step;
-            Some(v)
-        }
-    }
-}
-
-struct NegStep {
-    cur: i64,
-    limit: i64,
-    step: i64, // must be < 0
-}
-
-impl Iterator for NegStep {
-    type Item = Value;
-    fn next(&mut self) -> Option<Self::Item> {
-        if self.limit > self.cur {
-            None
-        } else {
-            let v = Value::integer(self.cur);
-            self.cur += self.step;
-            Some(v)
-        }
-    }
+    let iter = int_iter(self_val, vm[0], Value::integer(-1))?;
+    vm.eval_block_each1_iter(block, iter, self_val)
 }
 
 fn step(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -450,25 +408,21 @@ fn step(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let cur = self_val.as_fixnum().unwrap();
-    let limit = vm[0].coerce_to_fixnum("Limit")?;
     let step = if args.len() == 2 {
-        let step = vm[1].coerce_to_fixnum("Step")?;
-        if step == 0 {
-            return Err(RubyError::argument("Step can not be 0."));
+        match vm[1].unpack() {
+            RV::Float(_) => Value::integer(vm[1].coerce_to_fixnum("Step")?),
+            _ => vm[1],
         }
-        step
     } else {
-        1
+        Value::integer(1)
     };
-
-    if step > 0 {
-        let iter = PosStep { cur, step, limit };
-        vm.eval_block_each1_iter(block, iter, self_val)
-    } else {
-        let iter = NegStep { cur, step, limit };
-        vm.eval_block_each1_iter(block, iter, self_val)
+    match step.to_bigint() {
+        Some(step) if step.is_zero() => return Err(RubyError::argument("Step can not be 0.")),
+        Some(_) => {}
+        None => return Err(VMError::cant_coerse(step, "Integer")),
     }
+    let iter = int_iter(self_val, vm[0], step)?;
+    vm.eval_block_each1_iter(block, iter, self_val)
 }
 
 /// Built-in function "chr".
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 5386c75..5be5d54 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -91,47 +91,108 @@ fn end(_vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(range.end)
 }
 
+/// The elements of the range.
+fn elements(vm: &mut VM, range: &RangeInfo) -> Result<Box<dyn Iterator<Item = Value>>, RubyError> {
+    if let Some(iter) =
+        arith::IntIter::new(range.start, range.end, range.exclude, Value::integer(1))
+    {
+        return Ok(Box::new(iter));
+    }
+    let mut end = range.end;
+    if let Some(start) = range.start.as_string() {
+        let (start, end) = (start.to_string(), end.expect_string("Range.end")?.to_string());
+        return Ok(Box::new(StrIter::new(start, end, range.exclude)));
+    }
+    Err(RubyError::typeerr(format!(
+        "Can't iterate from {}.",
+        vm.globals.get_class(range.start).name()
+    )))
+}
+
+/// Strings from `start` to `end` by String#succ.
+struct StrIter {
+    cur: Option<String>,
+    end: String,
+    exclude: bool,
+}
+
+impl StrIter {
+    fn new(start: String, end: String, exclude: bool) -> Self {
+        let single = |s: &str| s.len() == 1 && s.is_ascii();
+        let is_empty = if single(&start) && single(&end) {
+            start > end
+        } else {
+            start.chars().count() > end.chars().count()
+        };
+        let is_empty = is_empty || exclude && start == end;
+        StrIter {
+            cur: if is_empty { None } else { Some(start) },
+            end,
+            exclude,
+        }
+    }
+}
+
+impl Iterator for StrIter {
+    type Item = Value;
+    fn next(&mut self) -> Option<Value> {
+        let cur = self.cur.take()?;
+        if cur != self.end {
+            let next = if cur.len() == 1 && self.end.len() == 1 {
+                // single characters
+                ((cur.as_bytes()[0] + 1) as char).to_string()
+            } else {
+                string::str_next(&cur)
+            };
+            let is_end = self.exclude && next == self.end
+                || next.chars().count() > self.end.chars().count();
+            if !is_end {
+                self.cur = Some(next);
+            }
+        }
+        Some(Value::string(cur))
+    }
+}
+
+/// Number of elements for `first` and `last`.
+fn expect_size(val: Value) -> Result<usize, RubyError> {
+    match val.coerce_to_fixnum("Argument")? {
+        i if i < 0 => Err(RubyError::argument("Negative array size")),
+        i => Ok(i as usize),
+    }
+}
+
 fn first(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let range = self_val.as_range().unwrap();
-    let start = range.start.as_fixnum().unwrap();
-    let mut end = range.end.as_fixnum().unwrap() - if range.exclude { 1 } else { 0 };
     if args.len() == 0 {
         return Ok(range.start);
     };
-    let arg = vm[0].coerce_to_fixnum("Argument")?;
-    if arg < 0 {
-        return Err(RubyError::argument("Negative array size"));
-    };
-    let mut v = vec![];
-    if start + arg - 1 < end {
-        end = start + arg - 1;
-    };
-    for i in start..=end {
-        v.push(Value::integer(i));
-    }
+    let num = expect_size(vm[0])?;
+    let v = elements(vm, range)?.take(num).collect();
     Ok(Value::array_from(v))
 }
 
 fn last(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let range = self_val.as_range().unwrap();
-    let mut start = range.start.as_fixnum().unwrap();
-    let end = range.end.as_fixnum().unwrap() - if range.exclude { 1 } else { 0 };
     if args.len() == 0 {
         return Ok(range.end);
     };
-    let arg = vm[0].coerce_to_fixnum("Argument")?;
-    if arg < 0 {
-        return Err(RubyError::argument("Negative array size"));
-    };
-    let mut v = vec![];
-    if end - arg + 1 > start {
-        start = end - arg + 1;
+    let num = expect_size(vm[0])?;
+    let v = match (range.start.to_bigint(), range.end.to_bigint()) {
+        (Some(start), Some(end)) => {
+            let end = if range.exclude { end - 1 } else { end };
+            let start = std::cmp::max(start, &end - num + 1);
+            num::range_inclusive(start, end)
+                .map(|n| Value::bignum(n))
+                .collect()
+        }
+        _ => {
+            let mut v: Vec<Value> = elements(vm, range)?.collect();
+            v.split_off(v.len().saturating_sub(num))
+        }
     };
-    for i in start..=end {
-        v.push(Value::integer(i));
-    }
     Ok(Value::array_from(v))
 }
 
@@ -139,9 +200,8 @@ fn map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
-    let res = vm.eval_block_map1_iter(block, (start..end).map(|i| Value::integer(i)))?;
+    let iter = elements(vm, range)?;
+    let res = vm.eval_block_map1_iter(block, iter)?;
     Ok(res)
 }
 
@@ -149,12 +209,11 @@ fn flat_map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let iter = elements(vm, range)?;
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
-    for i in start..end {
-        let val = f(vm, Value::integer(i))?;
+    for elem in iter {
+        let val = f(vm, elem)?;
         match val.as_array() {
             Some(aref) => {
                 vm.temp_extend_from_slice(&**aref);
@@ -178,10 +237,7 @@ fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
-
-    let iter = (start..end).map(|i| Value::integer(i));
+    let iter = elements(vm, range)?;
     vm.eval_block_each1_iter(block, iter, self_val)
 }
 
@@ -189,11 +245,10 @@ fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let iter = elements(vm, range)?;
     let f = vm.eval_block_map1(block);
-    for i in start..end {
-        let res = f(vm, Value::integer(i))?;
+    for elem in iter {
+        let res = f(vm, elem)?;
         if !res.to_bool() {
             return Ok(Value::false_val());
         }
@@ -201,38 +256,11 @@ fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::true_val())
 }
 
-fn to_a(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn to_a(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let RangeInfo {
-        start,
-        end,
-        exclude,
-    } = *self_val.as_range().unwrap();
-    if let Some(start) = start.as_fixnum() {
-        let end = end.coerce_to_fixnum("Range.end")?;
-        let v = if exclude { start..end } else { start..end + 1 }
-            .map(|i| Value::integer(i))
-            .collect();
-        Ok(Value::array_from(v))
-    } else if let Some(start) = start.as_string() {
-        let mut end = end;
-        let end = end.expect_string("Range.end")?;
-        // single character
-        if start.is_ascii() && end.is_ascii() && start.len() == 1 && end.len() == 1 {
-            let (start, end) = (start.as_bytes()[0], end.as_bytes()[0]);
-            if start > end || start == end && exclude {
-                return Ok(Value::array_empty());
-            }
-            let v = if exclude { start..end } else { start..end + 1 }
-                .map(|b| Value::string((b as char).to_string()))
-                .collect();
-            Ok(Value::array_from(v))
-        } else {
-            unimplemented!()
-        }
-    } else {
-        unimplemented!()
-    }
+    let range = self_val.as_range().unwrap();
+    let v = elements(vm, range)?.collect();
+    Ok(Value::array_from(v))
 }
 
 fn exclude_end(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 655bdbb..c9127aa 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -1179,7 +1179,7 @@ fn insert_carry(buf: &mut Vec<char>, last_alnum: usize) {
     buf.insert(last_alnum + 1, carry);
 }
 
-fn str_next(self_: &str) -> String {
+pub(crate) fn str_next(self_: &str) -> String {
     if self_.len() == 0 {
         return "".to_string();
     }
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 115b27b..1c46b48 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1259,6 +1259,16 @@ impl Value {
         }
     }
 
+    /// Convert `self` to `Option<BigInt>`.
+    /// If `self` was not a integer, return `None`.
+    pub(crate) fn to_bigint(&self) -> Option<BigInt> {
+        match self.to_real()? {
+            Real::Integer(i) => Some(BigInt::from(i)),
+            Real::Bignum(n) => Some(n),
+            Real::Float(_) => None,
+        }
+    }
+
     /// Convert `self` to `Option<Real>`.
     /// If `self` was not a integer nor a float, return `None`.
     pub(crate) fn to_real(&self) -> Option<Real> {
-- 
2.43.0


From 252e17f9d2fa3d7ccca1febe22a4c29b61e95a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 41/57] fix: crashes of block arguments that are not blocks, of
 huge array indexes and of failing matches

---
 ruruby-common/src/error.rs         |  4 ++
 ruruby/src/builtin/dir.rs          |  2 +-
 ruruby/src/builtin/file.rs         |  4 +-
 ruruby/src/builtin/kernel.rs       |  2 +-
 ruruby/src/builtin/range.rs        | 76 ++++++++++++++++++------------
 ruruby/src/builtin/regexp.rs       | 16 +++----
 ruruby/src/builtin/string.rs       |  4 +-
 ruruby/src/builtin/structobj.rs    |  2 +-
 ruruby/src/value/array.rs          | 14 +++++-
 ruruby/src/vm/executor.rs          |  2 +-
 ruruby/src/vm/executor/method.rs   | 22 +++++++--
 ruruby/src/vm/executor/opt_core.rs |  5 +-
 12 files changed, 100 insertions(+), 53 deletions(-)

diff --git a/ruruby-common/src/error.rs b/ruruby-common/src/error.rs
index 82d98b5..0ece889 100644
--- a/ruruby-common/src/error.rs
+++ b/ruruby-common/src/error.rs
@@ -195,6 +195,10 @@ impl RubyError {
 }
 
 impl RubyError {
+    pub fn regexp(msg: impl Into<String>) -> RubyError {
+        RubyError::new_runtime_err(RuntimeErrKind::Regexp, msg.into())
+    }
+
     pub fn runtime(msg: impl Into<String>) -> RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::Runtime, msg.into())
     }
diff --git a/ruruby/src/builtin/dir.rs b/ruruby/src/builtin/dir.rs
index 075c206..160a691 100644
--- a/ruruby/src/builtin/dir.rs
+++ b/ruruby/src/builtin/dir.rs
@@ -108,7 +108,7 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     let mut matches = FxHashSet::default();
     match traverse_dir(&fullpath, &path, &glob, 0, &mut matches) {
         Ok(_) => {}
-        Err(err) => return Err(RubyError::internal(format!("{:?}", err))),
+        Err(err) => return Err(RubyError::runtime(format!("{:?}", err))),
     };
     Ok(Value::array_from(
         matches.into_iter().map(|s| Value::string(s)).collect(),
diff --git a/ruruby/src/builtin/file.rs b/ruruby/src/builtin/file.rs
index e63d7be..a8d045e 100644
--- a/ruruby/src/builtin/file.rs
+++ b/ruruby/src/builtin/file.rs
@@ -217,7 +217,7 @@ fn expand_path(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let current_dir = std::env::current_dir()
         .or_else(|_| Err(RubyError::runtime("Failed to get current directory.")))?;
-    let home_dir = dirs::home_dir().ok_or(RubyError::internal("Failed to get home directory."))?;
+    let home_dir = dirs::home_dir().ok_or(RubyError::runtime("Failed to get home directory."))?;
     let path = if len == 1 {
         string_to_path(vm, vm[0], "1st arg")?
     } else {
@@ -251,7 +251,7 @@ fn expand_path(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     #[cfg(windows)]
     let res_path = PathBuf::from(
         std::env::var("HOMEDRIVE")
-            .or_else(|_| Err(RubyError::internal("Failed to get home drive.")))?,
+            .or_else(|_| Err(RubyError::runtime("Failed to get home drive.")))?,
     )
     .join(res_path);
 
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 4c1883b..857dec7 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -167,7 +167,7 @@ fn load(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
 
     let load_path = match vm.get_global_var(IdentId::get_id("$:")) {
         Some(path) => path,
-        None => return Err(RubyError::internal("Load path not found.")),
+        None => return Err(RubyError::runtime("Load path not found.")),
     };
 
     let mut load_ary = load_path.expect_array("LOAD_PATH($:)")?.to_vec();
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 5be5d54..05f116a 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -1,3 +1,4 @@
+use num::BigInt;
 use crate::*;
 
 #[derive(Debug, Clone, Hash)]
@@ -109,48 +110,65 @@ fn elements(vm: &mut VM, range: &RangeInfo) -> Result<Box<dyn Iterator<Item = Va
     )))
 }
 
-/// Strings from `start` to `end` by String#succ.
-struct StrIter {
-    cur: Option<String>,
-    end: String,
-    exclude: bool,
+/// Strings from `start` to `end`.
+enum StrIter {
+    /// Both are single ASCII characters.
+    Char(std::ops::Range<u8>),
+    /// Both are digits. The elements have `width` digits at least.
+    Number {
+        iter: num::iter::Range<BigInt>,
+        width: usize,
+    },
+    /// By String#succ.
+    Succ {
+        cur: Option<String>,
+        end: String,
+        exclude: bool,
+    },
 }
 
 impl StrIter {
     fn new(start: String, end: String, exclude: bool) -> Self {
-        let single = |s: &str| s.len() == 1 && s.is_ascii();
-        let is_empty = if single(&start) && single(&end) {
-            start > end
-        } else {
-            start.chars().count() > end.chars().count()
+        if let ([start], [end]) = (start.as_bytes(), end.as_bytes()) {
+            if start.is_ascii() && end.is_ascii() {
+                return StrIter::Char(*start..*end + if exclude { 0 } else { 1 });
+            }
+        }
+        let number = |s: &str| {
+            let is_digits = s.chars().all(|c| c.is_ascii_digit());
+            s.parse::<BigInt>().ok().filter(|_| is_digits)
         };
-        let is_empty = is_empty || exclude && start == end;
-        StrIter {
-            cur: if is_empty { None } else { Some(start) },
-            end,
-            exclude,
+        if let (Some(from), Some(to)) = (number(&start), number(&end)) {
+            return StrIter::Number {
+                iter: num::range(from, to + if exclude { 0 } else { 1 }),
+                width: start.len(),
+            };
         }
+        let is_empty = start > end || exclude && start == end || start == string::str_next(&end);
+        let cur = Some(start).filter(|_| !is_empty);
+        StrIter::Succ { cur, end, exclude }
     }
 }
 
 impl Iterator for StrIter {
     type Item = Value;
     fn next(&mut self) -> Option<Value> {
-        let cur = self.cur.take()?;
-        if cur != self.end {
-            let next = if cur.len() == 1 && self.end.len() == 1 {
-                // single characters
-                ((cur.as_bytes()[0] + 1) as char).to_string()
-            } else {
-                string::str_next(&cur)
-            };
-            let is_end = self.exclude && next == self.end
-                || next.chars().count() > self.end.chars().count();
-            if !is_end {
-                self.cur = Some(next);
+        let elem = match self {
+            StrIter::Char(iter) => (iter.next()? as char).to_string(),
+            StrIter::Number { iter, width } => {
+                format!("{:0>width$}", iter.next()?.to_string(), width = *width)
             }
-        }
-        Some(Value::string(cur))
+            StrIter::Succ { cur, end, exclude } => {
+                let elem = cur.take()?;
+                if elem != *end && !elem.is_empty() {
+                    *cur = Some(string::str_next(&elem)).filter(|next| {
+                        next.chars().count() <= end.chars().count() && !(*exclude && next == end)
+                    });
+                }
+                elem
+            }
+        };
+        Some(Value::string(elem))
     }
 }
 
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index a108711..1e760b1 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -88,7 +88,7 @@ impl RegexpInfo {
                     vm.get_captures(&captures, given);
                     (m.start(), m.end(), m.as_str())
                 }
-                Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+                Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
             };
 
             let mut res = given.to_string();
@@ -152,7 +152,7 @@ impl RegexpInfo {
                         (m.start(), m.end(), m.as_str())
                     }
                     Err(err) => {
-                        return Err(RubyError::internal(format!("Capture failed. {:?}", err)))
+                        return Err(RubyError::regexp(format!("Capture failed. {:?}", err)))
                     }
                 };
                 let matched = Value::string(matched_str);
@@ -198,7 +198,7 @@ impl RegexpInfo {
                 }
                 Ok(Value::array_from(v))
             }
-            Err(err) => Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+            Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 
@@ -220,7 +220,7 @@ impl RegexpInfo {
                 let matched = Value::string(captures.get(0).unwrap().as_str());
                 vm.eval_block1(block, matched)
             }
-            Err(err) => Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+            Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 
@@ -237,7 +237,7 @@ impl RegexpInfo {
                 vm.get_captures(&captures, given);
                 Ok(captures.get(0))
             }
-            Err(err) => Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+            Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 
@@ -281,7 +281,7 @@ impl RegexpInfo {
                         break;
                     }
                 }
-                Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+                Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
             };
         }
         match last_captures {
@@ -324,7 +324,7 @@ impl RegexpInfo {
                     range.push((m.start(), m.end()));
                     last_captures = Some(captures);
                 }
-                Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+                Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
             };
         }
         let mut res = given.to_string();
@@ -380,7 +380,7 @@ impl RegexpInfo {
                 res.replace_range(m.start()..m.end(), &rep);
                 Ok((res, Some(captures)))
             }
-            Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+            Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 }
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index c9127aa..c4ac610 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -227,7 +227,7 @@ fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
                             }
                         }
                     }
-                    Err(err) => Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+                    Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
                 }
             }
             _ => substring(vm, lhs, args),
@@ -541,7 +541,7 @@ fn split(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
                 Ok(Some(captures)) => captures,
                 Ok(None) => break,
                 Err(err) => {
-                    return Err(RubyError::internal(format!("Capture failed. {:?}", err)));
+                    return Err(RubyError::regexp(format!("Capture failed. {:?}", err)));
                 }
             };
             let m = captures.get(0).unwrap();
diff --git a/ruruby/src/builtin/structobj.rs b/ruruby/src/builtin/structobj.rs
index 2796980..ea52c3f 100644
--- a/ruruby/src/builtin/structobj.rs
+++ b/ruruby/src/builtin/structobj.rs
@@ -71,7 +71,7 @@ fn get_members(vm: &mut VM, self_val: Value) -> Result<Array, RubyError> {
         }
         class = c.superclass();
     }
-    Err(RubyError::internal("No /members."))
+    Err(RubyError::typeerr("No members."))
 }
 
 fn initialize(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index 777cda5..e9a5a9d 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -317,6 +317,7 @@ impl ArrayInfo {
     pub(crate) fn set_elem1(&mut self, idx: Value, val: Value) -> VMResult {
         if let Some(index) = idx.as_fixnum() {
             if index >= 0 {
+                check_index(index as usize)?;
                 self.set_elem_imm(index as usize, val);
             } else {
                 let index = self.get_array_index(index)?;
@@ -342,11 +343,12 @@ impl ArrayInfo {
 
     pub(crate) fn set_elem2(&mut self, index: usize, length: usize, val: Value) -> VMResult {
         let len = self.len();
+        check_index(index)?;
         match val.as_array() {
             Some(ary) => {
                 // if self = ary, something wrong happens..
                 let ary_len = ary.len();
-                if index >= len || index + length > len {
+                if index >= len || length > len - index {
                     self.resize(index + ary_len, Value::nil());
                 } else if ary_len > length {
                     // possibly self == ary
@@ -366,7 +368,7 @@ impl ArrayInfo {
                     self.push(Value::nil());
                     self.copy_within(index..len, index + 1);
                 } else {
-                    let end = index + length;
+                    let end = index.saturating_add(length);
                     if end < len {
                         self.copy_within(end..len, index + 1);
                         self.truncate(len + 1 - length);
@@ -389,3 +391,11 @@ impl ArrayInfo {
         }
     }
 }
+
+/// An array can not be grown to hold an element at such an index.
+fn check_index(index: usize) -> Result<(), RubyError> {
+    if index > i32::MAX as usize {
+        return Err(RubyError::index(format!("Index {} too big.", index)));
+    }
+    Ok(())
+}
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index e303f1c..0bd01c6 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -1042,7 +1042,7 @@ impl VM {
                 Ok(Value::procobj(self, self_val, *method, outer))
             }
             Block::Proc(proc) => Ok(*proc),
-            _ => unimplemented!(),
+            Block::Sym(_) => Ok(self.create_proc(block)),
         }
     }
 
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index e90ca84..bc16970 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -99,7 +99,12 @@ impl VM {
                 let pinfo = proc.as_proc().unwrap();
                 (pinfo.method, pinfo.outer, pinfo.self_val)
             }
-            _ => unimplemented!(),
+            Block::Sym(sym) => {
+                for v in iter {
+                    self.eval_send0(*sym, v)?;
+                }
+                return Ok(default);
+            }
         };
 
         use MethodInfo::*;
@@ -152,7 +157,14 @@ impl VM {
                 let pinfo = proc.as_proc().unwrap();
                 (pinfo.method, pinfo.outer, pinfo.self_val)
             }
-            _ => unimplemented!(),
+            Block::Sym(sym) => {
+                let len = self.temp_len();
+                for v in iter {
+                    let res = self.eval_send0(*sym, v)?;
+                    self.temp_push(res);
+                }
+                return Ok(Value::array_from(self.temp_pop_vec(len)));
+            }
         };
 
         use MethodInfo::*;
@@ -265,7 +277,11 @@ impl VM {
                 self.invoke_block(*method, outer, &args)?.handle(self)
             }
             Block::Proc(proc) => self.eval_proc(*proc, self_value, &args),
-            _ => unimplemented!(),
+            Block::Sym(_) => {
+                let proc = self.create_proc(block);
+                self.temp_push(proc);
+                self.eval_proc(proc, self_value, &args)
+            }
         }
     }
 
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 978eecd..ecc2c3f 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -630,9 +630,8 @@ impl VM {
                 let res = self.eval_send0(IdentId::get_id("to_proc"), val)?;
                 self.temp_push(res);
                 if res.as_proc().is_none() {
-                    return Err(RubyError::internal(format!(
-                        "Must be Proc. {:?}:{}",
-                        val,
+                    return Err(RubyError::typeerr(format!(
+                        "Can't convert {} to Proc.",
                         val.get_class_name()
                     )));
                 } else {
-- 
2.43.0


From bb9ab41c00a975497ec5f11abe914a8d1523a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:45 +0000
Subject: [PATCH 42/57] fix: newlines before a colon of the conditional
 operator and before => in a hash

---
 ruruby-parse/src/parser/expression.rs | 2 +-
 ruruby-parse/src/parser/literals.rs   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 6781779..4763718 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -272,7 +272,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let loc = cond.loc();
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
-            if !self.consume_punct_no_term(Punct::Colon)? {
+            if !self.consume_punct(Punct::Colon)? {
                 let loc = self.loc();
                 return Err(error_unexpected(loc, "Expect ':'."));
             };
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 05b72bb..599749b 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -191,8 +191,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 }
                 None => self.parse_arg()?,
             };
-            if !symbol_flag {
-                self.expect_punct(Punct::FatArrow)?
+            if !symbol_flag && !self.consume_punct_no_term(Punct::FatArrow)? {
+                let loc = self.loc();
+                return Err(error_unexpected(loc, "Expect '=>'."));
             };
             let value = self.parse_arg()?;
             kvp.push((key, value));
-- 
2.43.0


From 90ef0b19047cb2c36a2be874e722479f34781ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:01 +0000
Subject: [PATCH 43/57] fix: method caches referred to classes which were
 collected

---
 ruruby/src/alloc.rs       | 6 ++++--
 ruruby/src/vm/executor.rs | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/alloc.rs b/ruruby/src/alloc.rs
index aa70fe2..43f9864 100644
--- a/ruruby/src/alloc.rs
+++ b/ruruby/src/alloc.rs
@@ -243,17 +243,19 @@ impl<T: GCBox> Allocator<T> {
     }
 
     #[inline(always)]
-    pub fn check_gc(&mut self, root: &impl GCRoot<T>) {
+    /// Collect garbage if it is time to. Return true if it was done.
+    pub fn check_gc(&mut self, root: &impl GCRoot<T>) -> bool {
         let malloced = MALLOC_AMOUNT.load(std::sync::atomic::Ordering::SeqCst);
         #[cfg(not(feature = "gc-stress"))]
         {
             if !self.is_allocated() && !(self.malloc_threshold < malloced) {
-                return;
+                return false;
             }
         }
         #[cfg(feature = "gc-debug")]
         dbg!(malloced);
         self.gc(root);
+        true
     }
 
     pub fn gc(&mut self, root: &impl GCRoot<T>) {
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 0bd01c6..25f1013 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -368,12 +368,16 @@ impl VM {
                 return;
             }
         }
-        ALLOC.with(|m| m.borrow_mut().check_gc(&*self.globals));
+        if ALLOC.with(|m| m.borrow_mut().check_gc(&*self.globals)) {
+            // The caches might refer to a class which was collected. A new class can get its address.
+            self.globals.methods.inc_class_version();
+        }
     }
 
     #[inline(always)]
     pub fn gc(&mut self) {
         ALLOC.with(|m| m.borrow_mut().gc(&*self.globals));
+        self.globals.methods.inc_class_version();
     }
 
     #[inline]
-- 
2.43.0


From 4abaff3a8c68e3e26d67bef0eb530cbb1adb0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:45 +0000
Subject: [PATCH 44/57] fix: Array#min and max of any elements, Array#bsearch
 in find-any mode

---
 ruruby/src/builtin/array.rs | 114 +++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 60 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 2a0e663..b1a9443 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -618,49 +618,40 @@ fn transpose(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(res)
 }
 
-fn min(_: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
-    fn to_float(val: Value) -> Result<f64, RubyError> {
-        if let Some(i) = val.as_fixnum() {
-            Ok(i as f64)
-        } else if let Some(f) = val.as_flonum() {
-            Ok(f)
-        } else {
-            Err(RubyError::typeerr(
-                "Currently, each element must be Numeric.",
-            ))
-        }
-    }
-
-    let aref = self_val.into_array();
-    if aref.len() == 0 {
-        return Ok(Value::nil());
-    }
-    let mut min_obj = aref[0];
-    let mut min = to_float(min_obj)?;
-    for elem in &**aref {
-        let elem_f = to_float(*elem)?;
-        if elem_f < min {
-            min_obj = *elem;
-            min = elem_f;
-        }
-    }
-
-    return Ok(min_obj);
+fn min(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    extremum(vm, self_val.into_array(), std::cmp::Ordering::Less)
 }
 
 fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let aref = self_val.into_array();
-    if aref.len() == 0 {
-        return Ok(Value::nil());
-    }
-    let mut max = aref[0];
-    for elem in aref.live_iter() {
-        if vm.eval_gt2(max, elem)? {
-            max = elem;
-        };
+    extremum(vm, self_val.into_array(), std::cmp::Ordering::Greater)
+}
+
+/// The first element which is `ord` than all elements before it, and not exceeded by the others.
+fn extremum(vm: &mut VM, ary: Array, ord: std::cmp::Ordering) -> VMResult {
+    let mut iter = ary.live_iter();
+    let mut res = match iter.next() {
+        Some(elem) => elem,
+        None => return Ok(Value::nil()),
+    };
+    for elem in iter {
+        // The method `<=>` may remove them from the array.
+        vm.temp_push(res);
+        vm.temp_push(elem);
+        let cmp = vm.eval_compare(res, elem)?;
+        if cmp.is_nil() {
+            return Err(RubyError::argument(format!(
+                "Comparison of {} with {} failed.",
+                elem.get_class_name(),
+                res.get_class_name()
+            )));
+        }
+        if cmp.to_ordering()? == ord {
+            res = elem;
+        }
     }
-    Ok(max)
+    Ok(res)
 }
 
 fn fill(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -1154,32 +1145,35 @@ fn find(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 }
 
 fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>, RubyError> {
-    if ary.len() == 0 {
-        return Ok(None);
-    };
-    let mut i_min = 0;
-    let mut i_max = ary.len() - 1;
     let f = vm.eval_block_map1(block);
-    // The block may shrink the array.
-    let elem = |i| ary.get(i).copied().unwrap_or_default();
-    if f(vm, elem(0))?.expect_bool_nil_num()? {
-        return Ok(Some(0));
-    };
-    if !f(vm, elem(i_max))?.expect_bool_nil_num()? {
-        return Ok(None);
-    };
-
-    loop {
-        let i_mid = i_min + (i_max - i_min) / 2;
-        if i_mid == i_min {
-            return Ok(Some(i_max));
+    let mut found = None;
+    let (mut min, mut max) = (0, ary.len());
+    while min < max {
+        let mid = min + (max - min) / 2;
+        // The block may shrink the array.
+        let elem = ary.get(mid).copied().unwrap_or_default();
+        let res = f(vm, elem)?;
+        let go_left = match res.to_real() {
+            Some(num) if num.is_zero() => {
+                found = Some(mid);
+                true
+            }
+            Some(num) => num.is_negative(),
+            None => {
+                let b = res.expect_bool_nil_num()?;
+                if b {
+                    found = Some(mid);
+                }
+                b
+            }
         };
-        if f(vm, elem(i_mid))?.expect_bool_nil_num()? {
-            i_max = i_mid;
+        if go_left {
+            max = mid;
         } else {
-            i_min = i_mid;
-        };
+            min = mid + 1;
+        }
     }
+    Ok(found)
 }
 
 /// ## instance method Array#bsearch
-- 
2.43.0


From e227b3a3c7a73d999b44710e9977503106f953b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:51 +0000
Subject: [PATCH 45/57] fix: blocks of Array#sort can return Float

---
 ruruby/src/value/value.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 1c46b48..10b0692 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1184,6 +1184,8 @@ impl Value {
                 Sign::Minus => Ok(Ordering::Less),
                 _ => Ok(Ordering::Equal),
             }
+        } else if let Some(f) = self.as_float() {
+            Ok(f.partial_cmp(&0.0).unwrap_or(Ordering::Equal))
         } else {
             Err(RubyError::argument("Ordering value must be Integer."))
         }
-- 
2.43.0


From 29935af3db182b774b35ea034922bbac173087a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:52 +0000
Subject: [PATCH 46/57] fix: matches of regexps with empty matches, multi-byte
 chars and groups which took no part

---
 ruruby-parse/src/parser/lexer.rs |   3 +-
 ruruby/src/builtin/regexp.rs     | 441 +++++++++++++++----------------
 ruruby/src/builtin/string.rs     |  62 ++---
 ruruby/src/builtin/symbol.rs     |   8 +
 ruruby/src/value/rvalue.rs       |   2 +
 ruruby/src/vm/executor.rs        |   6 +
 ruruby/src/vm/executor/ops.rs    |  10 +-
 7 files changed, 265 insertions(+), 267 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index cbde5db..74f671d 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -414,7 +414,8 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id += ch as u32 - '0' as u32;
+                // No pattern has so many groups.
+                id = (id * 10 + (ch as u32 - '0' as u32)).min(1_000_000);
             }
             Ok(self.new_special_var(id as usize + 100))
         } else {
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index 1e760b1..abd141b 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -59,14 +59,8 @@ impl RegexpInfo {
         given: &str,
         replace: &str,
     ) -> Result<String, RubyError> {
-        if let Some(s) = re_val.as_string() {
-            let re = vm.regexp_from_escaped_string(&s)?;
-            re.replace_once(vm, given, replace).map(|x| x.0)
-        } else if let Some(re) = re_val.as_regexp() {
-            re.replace_once(vm, given, replace).map(|x| x.0)
-        } else {
-            Err(RubyError::argument("1st arg must be RegExp or String."))
-        }
+        let re = RegexpInfo::from_pattern(vm, re_val)?;
+        re.replace_once(vm, given, replace).map(|x| x.0)
     }
 
     pub(crate) fn replace_one_block(
@@ -75,37 +69,19 @@ impl RegexpInfo {
         given: &str,
         block: &Block,
     ) -> Result<(String, bool), RubyError> {
-        fn replace_(
-            vm: &mut VM,
-            re: &RegexpInfo,
-            given: &str,
-            block: &Block,
-        ) -> Result<(String, bool), RubyError> {
-            let (start, end, matched_str) = match re.captures_from_pos(given, 0) {
-                Ok(None) => return Ok((given.to_string(), false)),
-                Ok(Some(captures)) => {
-                    let m = captures.get(0).unwrap();
-                    vm.get_captures(&captures, given);
-                    (m.start(), m.end(), m.as_str())
-                }
-                Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
-            };
-
-            let mut res = given.to_string();
-            let matched = Value::string(matched_str);
-            let result = vm.eval_block1(block, matched)?;
-            let s = result.val_to_s(vm)?;
-            res.replace_range(start..end, &s);
-            Ok((res, true))
-        }
-
-        if let Some(s) = re_val.as_string() {
-            let re = vm.regexp_from_escaped_string(&s)?;
-            replace_(vm, &re, given, block)
-        } else if let Some(re) = re_val.as_regexp() {
-            replace_(vm, &re, given, block)
-        } else {
-            Err(RubyError::argument("1st arg must be RegExp or String."))
+        let re = RegexpInfo::from_pattern(vm, re_val)?;
+        // The block may change the receiver.
+        let given = given.to_string();
+        match re.find_captures(vm, &given, 0)? {
+            None => Ok((given.clone(), false)),
+            Some(captures) => {
+                let m = captures.get(0).unwrap();
+                let result = vm.eval_block1(block, Value::string(m.as_str()))?;
+                let s = result.val_to_s(vm)?;
+                let mut res = given.clone();
+                res.replace_range(m.range(), &s);
+                Ok((res, true))
+            }
         }
     }
 
@@ -116,14 +92,8 @@ impl RegexpInfo {
         given: &str,
         replace: &str,
     ) -> Result<(String, bool), RubyError> {
-        if let Some(s) = regexp.as_string() {
-            let re = vm.regexp_from_escaped_string(&s)?;
-            return re.replace_repeat(vm, given, replace);
-        } else if let Some(re) = regexp.as_regexp() {
-            return re.replace_repeat(vm, given, replace);
-        } else {
-            return Err(RubyError::argument("1st arg must be RegExp or String."));
-        };
+        let re = RegexpInfo::from_pattern(vm, regexp)?;
+        re.replace_repeat(vm, given, replace)
     }
 
     /// Replaces all non-overlapping matches in `given` string with `replace`.
@@ -133,163 +103,221 @@ impl RegexpInfo {
         given: &str,
         block: &Block,
     ) -> Result<(String, bool), RubyError> {
-        fn replace_(
-            vm: &mut VM,
-            re: &RegexpInfo,
-            given: &str,
-            block: &Block,
-        ) -> Result<(String, bool), RubyError> {
-            let mut range = vec![];
-            let mut i = 0;
-            let f = vm.eval_block_map1(block);
-            loop {
-                let (start, end, matched_str) = match re.captures_from_pos(given, i) {
-                    Ok(None) => break,
-                    Ok(Some(captures)) => {
-                        let m = captures.get(0).unwrap();
-                        i = m.end() + if m.start() == m.end() { 1 } else { 0 };
-                        vm.get_captures(&captures, given);
-                        (m.start(), m.end(), m.as_str())
-                    }
-                    Err(err) => {
-                        return Err(RubyError::regexp(format!("Capture failed. {:?}", err)))
-                    }
-                };
-                let matched = Value::string(matched_str);
-                let result = f(vm, matched)?;
-                let replace = result.val_to_s(vm)?.into_owned();
-                range.push((start, end, replace));
-            }
-
-            let mut res = given.to_string();
-            for (start, end, replace) in range.iter().rev() {
-                res.replace_range(start..end, replace);
-            }
-            Ok((res, range.len() != 0))
+        let re = RegexpInfo::from_pattern(vm, re_val)?;
+        // The block may change the receiver.
+        let given = given.to_string();
+        let all = re.all_captures(vm, &given)?;
+        let mut res = String::new();
+        let mut pos = 0;
+        for captures in &all {
+            let m = captures.get(0).unwrap();
+            vm.get_captures(captures, &given);
+            let result = vm.eval_block1(block, Value::string(m.as_str()))?;
+            res += &given[pos..m.start()];
+            res += &result.val_to_s(vm)?;
+            pos = m.end();
         }
-
-        if let Some(s) = re_val.as_string() {
-            let re = vm.regexp_from_escaped_string(&s)?;
-            return replace_(vm, &re, given, block);
-        } else if let Some(re) = re_val.as_regexp() {
-            return replace_(vm, &re, given, block);
-        } else {
-            return Err(RubyError::argument("1st arg must be RegExp or String."));
-        };
+        res += &given[pos..];
+        if let Some(captures) = all.last() {
+            vm.get_captures(captures, &given);
+        }
+        Ok((res, !all.is_empty()))
     }
 
     pub(crate) fn match_one<'a>(
         vm: &mut VM,
-        re: &Regex,
+        re: &RegexpInfo,
         given: &'a str,
         pos: usize,
     ) -> Result<Value, RubyError> {
-        let pos = match given.char_indices().nth(pos) {
-            Some((pos, _)) => pos,
-            None => return Ok(Value::nil()),
+        let pos = match char_pos(given, pos) {
+            Some(pos) => pos,
+            None => {
+                vm.clear_captures();
+                return Ok(Value::nil());
+            }
         };
-        match re.captures_from_pos(given, pos) {
-            Ok(None) => Ok(Value::nil()),
-            Ok(Some(captures)) => {
-                vm.get_captures(&captures, given);
-                let mut v = vec![];
-                for i in 0..captures.len() {
-                    v.push(Value::string(captures.get(i).unwrap().as_str()));
-                }
-                Ok(Value::array_from(v))
+        match re.find_captures(vm, given, pos)? {
+            None => Ok(Value::nil()),
+            Some(captures) => {
+                let v = captures
+                    .iter()
+                    .map(|m| m.map_or(Value::nil(), |m| Value::string(m.as_str())));
+                Ok(Value::array_from(v.collect()))
             }
-            Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 
     pub(crate) fn match_one_block<'a>(
         vm: &mut VM,
-        re: &Regex,
+        re: &RegexpInfo,
         given: &'a str,
         block: &Block,
         pos: usize,
     ) -> Result<Value, RubyError> {
-        let pos = match given.char_indices().nth(pos) {
-            Some((pos, _)) => pos,
-            None => return Ok(Value::nil()),
+        let pos = match char_pos(given, pos) {
+            Some(pos) => pos,
+            None => {
+                vm.clear_captures();
+                return Ok(Value::nil());
+            }
         };
-        match re.captures_from_pos(given, pos) {
-            Ok(None) => Ok(Value::nil()),
-            Ok(Some(captures)) => {
-                vm.get_captures(&captures, given);
+        match re.find_captures(vm, given, pos)? {
+            None => Ok(Value::nil()),
+            Some(captures) => {
                 let matched = Value::string(captures.get(0).unwrap().as_str());
                 vm.eval_block1(block, matched)
             }
-            Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 
     /// Find the leftmost-first match for `given`.
-    /// Returns `Match`s.
-    pub(crate) fn find_one<'a>(
+    /// Returns the position (in chars) of the match.
+    pub(crate) fn find_one(
+        vm: &mut VM,
+        re: &RegexpInfo,
+        given: &str,
+    ) -> Result<Option<usize>, RubyError> {
+        let captures = re.find_captures(vm, given, 0)?;
+        Ok(captures.map(|c| given[..c.get(0).unwrap().start()].chars().count()))
+    }
+
+    pub(crate) fn find_all(
+        vm: &mut VM,
+        re: &RegexpInfo,
+        given: &str,
+    ) -> Result<Vec<Value>, RubyError> {
+        let all = re.all_captures(vm, given)?;
+        if let Some(captures) = all.last() {
+            vm.get_captures(captures, given);
+        }
+        Ok(all.iter().map(scanned).collect())
+    }
+
+    /// Call `block` with each match in `given`.
+    pub(crate) fn find_all_block(
+        vm: &mut VM,
+        re: &RegexpInfo,
+        given: &str,
+        block: &Block,
+    ) -> Result<(), RubyError> {
+        // The block may change the receiver.
+        let given = given.to_string();
+        let all = re.all_captures(vm, &given)?;
+        for captures in &all {
+            vm.get_captures(captures, &given);
+            let val = scanned(captures);
+            match val.as_array() {
+                Some(ary) => vm.eval_block(block, &**ary)?,
+                None => vm.eval_block1(block, val)?,
+            };
+        }
+        if let Some(captures) = all.last() {
+            vm.get_captures(captures, &given);
+        }
+        Ok(())
+    }
+
+    /// `String` stands for itself as a pattern.
+    fn from_pattern(vm: &mut VM, val: Value) -> Result<Self, RubyError> {
+        if let Some(s) = val.as_string() {
+            vm.regexp_from_escaped_string(s)
+        } else if let Some(re) = val.as_regexp() {
+            Ok(re)
+        } else {
+            Err(RubyError::argument("1st arg must be RegExp or String."))
+        }
+    }
+
+    /// Find the leftmost-first match at or after `pos` (in bytes), and set or clear the special variables.
+    pub(crate) fn find_captures<'a>(
+        &self,
         vm: &mut VM,
-        re: &Regex,
         given: &'a str,
-    ) -> Result<Option<Match<'a>>, RubyError> {
-        match re.captures(given) {
-            Ok(None) => Ok(None),
-            Ok(Some(captures)) => {
-                vm.get_captures(&captures, given);
-                Ok(captures.get(0))
+        pos: usize,
+    ) -> Result<Option<Captures<'a>>, RubyError> {
+        match self.captures_from_pos(given, pos) {
+            Ok(captures) => {
+                match &captures {
+                    Some(captures) => vm.get_captures(captures, given),
+                    None => vm.clear_captures(),
+                }
+                Ok(captures)
             }
             Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 
-    pub(crate) fn find_all(vm: &mut VM, re: &Regex, given: &str) -> Result<Vec<Value>, RubyError> {
-        let mut ary = vec![];
-        let mut idx = 0;
-        let mut last_captures = None;
-        loop {
-            match re.captures_from_pos(given, idx) {
+    /// Find all non-overlapping matches. The special variables are cleared.
+    fn all_captures<'a>(
+        &self,
+        vm: &mut VM,
+        given: &'a str,
+    ) -> Result<Vec<Captures<'a>>, RubyError> {
+        vm.clear_captures();
+        let mut res = vec![];
+        let mut pos = 0;
+        while pos <= given.len() {
+            match self.captures_from_pos(given, pos) {
                 Ok(None) => break,
                 Ok(Some(captures)) => {
                     let m = captures.get(0).unwrap();
-                    idx = m.end();
-                    let is_last = idx >= given.len();
+                    pos = m.end();
                     if m.start() == m.end() {
                         // Go on after the next char.
-                        idx += given[idx..].chars().next().map_or(0, |ch| ch.len_utf8());
-                    }
-                    match captures.len() {
-                        1 => {
-                            let val = Value::string(&given[m.start()..m.end()]);
-                            ary.push(val);
-                        }
-                        len => {
-                            let mut vec = vec![];
-                            for i in 1..len {
-                                match captures.get(i) {
-                                    Some(m) => {
-                                        vec.push(Value::string(&given[m.start()..m.end()]));
-                                    }
-                                    None => vec.push(Value::nil()),
-                                }
-                            }
-                            let val = Value::array_from(vec);
-                            ary.push(val);
-                        }
-                    }
-                    let is_empty = m.start() == m.end();
-                    last_captures = Some(captures);
-                    if is_empty && is_last {
-                        break;
+                        pos += given[pos..].chars().next().map_or(1, |ch| ch.len_utf8());
                     }
+                    res.push(captures);
                 }
                 Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
-            };
+            }
+        }
+        Ok(res)
+    }
+}
+
+/// The position in bytes of the `pos`-th char of `given`, or of its end.
+fn char_pos(given: &str, pos: usize) -> Option<usize> {
+    let ends = std::iter::once(given.len());
+    given.char_indices().map(|(i, _)| i).chain(ends).nth(pos)
+}
+
+/// An element of the result of `String#scan`.
+fn scanned(captures: &Captures) -> Value {
+    let get = |m: Option<Match>| m.map_or(Value::nil(), |m| Value::string(m.as_str()));
+    match captures.len() {
+        1 => get(captures.get(0)),
+        _ => Value::array_from(captures.iter().skip(1).map(get).collect()),
+    }
+}
+
+/// Expand the back references in `replace`.
+fn expand(captures: &Captures, given: &str, replace: &str) -> String {
+    let m = captures.get(0).unwrap();
+    let mut res = String::new();
+    let mut chars = replace.chars();
+    while let Some(ch) = chars.next() {
+        if ch != '\\' {
+            res.push(ch);
+            continue;
         }
-        match last_captures {
-            Some(c) => vm.get_captures(&c, given),
-            None => {}
+        match chars.next() {
+            Some(ch @ '0'..='9') => {
+                if let Some(m) = captures.get(ch as usize - '0' as usize) {
+                    res += m.as_str();
+                }
+            }
+            Some('&') => res += m.as_str(),
+            Some('`') => res += &given[..m.start()],
+            Some('\'') => res += &given[m.end()..],
+            Some('\\') | None => res.push('\\'),
+            Some(ch) => {
+                res.push('\\');
+                res.push(ch);
+            }
         }
-        Ok(ary)
     }
+    res
 }
 
 impl RegexpInfo {
@@ -303,41 +331,20 @@ impl RegexpInfo {
         given: &str,
         replace: &str,
     ) -> Result<(String, bool), RubyError> {
-        let mut range = vec![];
-        let mut i = 0;
-        let mut last_captures = None;
-        loop {
-            if i >= given.len() {
-                break;
-            }
-            match self.captures_from_pos(given, i) {
-                Ok(None) => break,
-                Ok(Some(captures)) => {
-                    let m = captures.get(0).unwrap();
-                    // the length of matched string can be 0.
-                    // this is neccesary to avoid infinite loop.
-                    i = if m.end() == m.start() {
-                        m.end() + 1
-                    } else {
-                        m.end()
-                    };
-                    range.push((m.start(), m.end()));
-                    last_captures = Some(captures);
-                }
-                Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
-            };
+        let all = self.all_captures(vm, given)?;
+        let mut res = String::new();
+        let mut pos = 0;
+        for captures in &all {
+            let m = captures.get(0).unwrap();
+            res += &given[pos..m.start()];
+            res += &expand(captures, given, replace);
+            pos = m.end();
         }
-        let mut res = given.to_string();
-        for (start, end) in range.iter().rev() {
-            res.replace_range(start..end, replace);
+        res += &given[pos..];
+        if let Some(captures) = all.last() {
+            vm.get_captures(captures, given);
         }
-
-        match last_captures {
-            Some(c) => vm.get_captures(&c, given),
-            None => {}
-        }
-
-        Ok((res, range.len() != 0))
+        Ok((res, !all.is_empty()))
     }
 
     /// Replaces the leftmost-first match for `self` in `given` string with `replace`.
@@ -350,37 +357,14 @@ impl RegexpInfo {
         given: &'a str,
         replace: &str,
     ) -> Result<(String, Option<Captures>), RubyError> {
-        match self.captures(given) {
-            Ok(None) => Ok((given.to_string(), None)),
-            Ok(Some(captures)) => {
+        match self.find_captures(vm, given, 0)? {
+            None => Ok((given.to_string(), None)),
+            Some(captures) => {
                 let mut res = given.to_string();
-                let m = captures.get(0).unwrap();
-                vm.get_captures(&captures, given);
-                let mut rep = "".to_string();
-                let mut escape = false;
-                for ch in replace.chars() {
-                    if escape {
-                        match ch {
-                            '0'..='9' => {
-                                let i = ch as usize - '0' as usize;
-                                match captures.get(i) {
-                                    Some(m) => rep += m.as_str(),
-                                    None => {}
-                                };
-                            }
-                            _ => rep.push(ch),
-                        };
-                        escape = false;
-                    } else if ch != '\\' {
-                        rep.push(ch);
-                    } else {
-                        escape = true;
-                    }
-                }
-                res.replace_range(m.start()..m.end(), &rep);
+                let rep = expand(&captures, given, replace);
+                res.replace_range(captures.get(0).unwrap().range(), &rep);
                 Ok((res, Some(captures)))
             }
-            Err(err) => return Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
         }
     }
 }
@@ -413,7 +397,8 @@ fn regexp_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut arg0 = vm[0];
     let string = arg0.expect_string("1st arg")?;
-    let val = Value::regexp_from(vm, string)?;
+    // As in a literal, "^" and "$" match at every line.
+    let val = Value::regexp_from(vm, &format!("(?m){}", string))?;
     Ok(val)
 }
 
@@ -449,9 +434,17 @@ fn regexp_match(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut args0 = vm[0];
     let regex = self_val.as_regexp().unwrap();
-    let given = args0.expect_string("1st Arg")?;
-    let res = match RegexpInfo::find_one(vm, &regex, given).unwrap() {
-        Some(mat) => Value::integer(mat.start() as i64),
+    if args0.is_nil() {
+        vm.clear_captures();
+        return Ok(Value::nil());
+    }
+    let name = args0.as_symbol().map(|sym| sym.get_name());
+    let given = match &name {
+        Some(name) => name,
+        None => args0.expect_string("1st Arg")?,
+    };
+    let res = match RegexpInfo::find_one(vm, &regex, given)? {
+        Some(pos) => Value::integer(pos as i64),
         None => Value::nil(),
     };
     return Ok(res);
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index c4ac610..1cc8691 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -200,34 +200,24 @@ fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     match vm[0].unpack() {
         RV::Object(oref) => match oref.kind() {
             ObjKind::REGEXP => {
-                let info = &*oref.regexp();
+                let info = oref.regexp().clone();
                 let nth = if args.len() == 1 {
                     0
                 } else {
                     vm[1].coerce_to_fixnum("2nd arg")?
                 };
-                match info.captures(lhs) {
-                    Ok(None) => return Ok(Value::nil()),
-                    Ok(Some(captures)) => {
-                        vm.get_captures(&captures, lhs);
+                match info.find_captures(vm, lhs, 0)? {
+                    None => Ok(Value::nil()),
+                    Some(captures) => {
                         let len = captures.len() as i64;
-                        if nth == 0 {
-                            Ok(Value::string(captures.get(0).unwrap().as_str()))
-                        } else if nth > 0 {
-                            match captures.get(nth as usize) {
-                                Some(m) => Ok(Value::string(m.as_str())),
-                                None => Ok(Value::nil()),
-                            }
-                        } else {
-                            match len + nth {
-                                i if i > 0 => {
-                                    Ok(Value::string(captures.get(i as usize).unwrap().as_str()))
-                                }
-                                _ => Ok(Value::nil()),
-                            }
-                        }
+                        let group = match nth {
+                            0 => captures.get(0),
+                            nth if nth > 0 => captures.get(nth as usize),
+                            nth if len + nth > 0 => captures.get((len + nth) as usize),
+                            _ => None,
+                        };
+                        Ok(group.map_or(Value::nil(), |m| Value::string(m.as_str())))
                     }
-                    Err(err) => Err(RubyError::regexp(format!("Capture failed. {:?}", err))),
                 }
             }
             _ => substring(vm, lhs, args),
@@ -651,28 +641,20 @@ fn scan(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let given = self_val.expect_string("Receiver")?;
     let arg0 = vm[0];
-    let vec = if let Some(s) = arg0.as_string() {
-        let re = vm.regexp_from_escaped_string(s)?;
-        RegexpInfo::find_all(vm, &re, given)?
-    } else if let Some(re) = vm[0].as_regexp() {
-        RegexpInfo::find_all(vm, &*re, given)?
+    let re = if let Some(s) = arg0.as_string() {
+        vm.regexp_from_escaped_string(s)?
+    } else if let Some(re) = arg0.as_regexp() {
+        re
     } else {
         return Err(RubyError::argument("1st arg must be RegExp or String."));
     };
     match &args.block {
-        None => Ok(Value::array_from(vec)),
+        None => {
+            let vec = RegexpInfo::find_all(vm, &re, given)?;
+            Ok(Value::array_from(vec))
+        }
         Some(block) => {
-            vm.temp_extend_from_slice(&vec);
-            for arg in vec {
-                match arg.as_array() {
-                    Some(ary) => {
-                        vm.eval_block(block, &**ary)?;
-                    }
-                    None => {
-                        vm.eval_block1(block, arg)?;
-                    }
-                }
-            }
+            RegexpInfo::find_all_block(vm, &re, given, block)?;
             Ok(self_val)
         }
     }
@@ -708,8 +690,8 @@ fn rmatch(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let given = self_val.expect_string("Receiver")?;
     if let Some(re) = vm[0].as_regexp() {
-        let res = match RegexpInfo::find_one(vm, &re, given).unwrap() {
-            Some(mat) => Value::integer(mat.start() as i64),
+        let res = match RegexpInfo::find_one(vm, &re, given)? {
+            Some(pos) => Value::integer(pos as i64),
             None => Value::nil(),
         };
         return Ok(res);
diff --git a/ruruby/src/builtin/symbol.rs b/ruruby/src/builtin/symbol.rs
index 0548b48..f89d0b9 100644
--- a/ruruby/src/builtin/symbol.rs
+++ b/ruruby/src/builtin/symbol.rs
@@ -10,10 +10,18 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     symbol_class.add_builtin_method_by_str(globals, "to_proc", to_proc);
     symbol_class.add_builtin_method_by_str(globals, "inspect", inspect);
     symbol_class.add_builtin_method_by_str(globals, "<=>", cmp);
+    symbol_class.add_builtin_method_by_str(globals, "=~", match_);
     symbol_class.add_builtin_method_by_str(globals, "==", eq);
     symbol_class.into()
 }
 
+/// self =~ obj -> Integer | nil
+fn match_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let name = Value::string(self_val.as_symbol().unwrap().get_name());
+    vm.eval_send1(IdentId::get_id("=~"), name, vm[0])
+}
+
 fn to_sym(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     Ok(self_val)
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 9596b13..3ff6296 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -90,6 +90,7 @@ impl std::hash::Hash for RValue {
             ObjKind::ARRAY => visit_once(self.id() as usize, || self.array().hash(state)),
             ObjKind::RANGE => self.range().hash(state),
             ObjKind::HASH => self.rhash().hash(state),
+            ObjKind::REGEXP => self.regexp().as_str().hash(state),
             ObjKind::METHOD | ObjKind::UNBOUND_METHOD => self.method().hash(state),
             _ => self.id().hash(state),
         }
@@ -436,6 +437,7 @@ impl RValue {
             }
             (ObjKind::RANGE, ObjKind::RANGE) => self.range().eql(&other.range()),
             (ObjKind::HASH, ObjKind::HASH) => self.rhash().eql(other.rhash()),
+            (ObjKind::REGEXP, ObjKind::REGEXP) => *self.regexp() == *other.regexp(),
             (ObjKind::METHOD, ObjKind::METHOD) => *self.method() == *other.method(),
             (ObjKind::UNBOUND_METHOD, ObjKind::UNBOUND_METHOD) => *self.method() == *other.method(),
             (ObjKind::INVALID, _) => panic!("Invalid rvalue. (maybe GC problem) {:?}", self),
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 25f1013..df88c1c 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -692,6 +692,12 @@ impl VM {
         }
     }
 
+    pub(crate) fn clear_captures(&mut self) {
+        self.sp_last_match = None;
+        self.sp_post_match = None;
+        self.sp_matches.clear();
+    }
+
     pub(crate) fn get_special_matches(&self, nth: usize) -> Value {
         match self.sp_matches.get(nth - 1) {
             None => Value::nil(),
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 0d783a4..f4ba8dc 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -392,9 +392,15 @@ impl VM {
             RV::Symbol(sym) => sym.get_name(),
             RV::Object(_) => match rhs.as_string() {
                 Some(s) => s.to_owned(),
-                None => return Ok(false),
+                None => {
+                    self.clear_captures();
+                    return Ok(false);
+                }
             },
-            _ => return Ok(false),
+            _ => {
+                self.clear_captures();
+                return Ok(false);
+            }
         };
         Ok(RegexpInfo::find_one(self, &*re, &given)?.is_some())
     }
-- 
2.43.0


From c549251bbb7c7e8dc5218bb6d72e27e82f3a3026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:49 +0000
Subject: [PATCH 47/57] fix: text of floats, %-directives without precision, of
 big and negative numbers, Integer() of text

---
 ruruby/src/builtin/float.rs   |  13 +++-
 ruruby/src/builtin/kernel.rs  |  14 +++-
 ruruby/src/builtin/numeric.rs |   2 +-
 ruruby/src/builtin/string.rs  | 142 +++++++++++++++++++++++-----------
 ruruby/src/value/value.rs     |  28 ++++---
 ruruby/src/vm/executor.rs     |   8 +-
 6 files changed, 137 insertions(+), 70 deletions(-)

diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index f869baa..34dad64 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -98,7 +98,7 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn floor(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let lhs = self_val.as_float().unwrap();
-    Ok(Value::integer(lhs.floor() as i64))
+    float_to_integer(lhs.floor())
 }
 
 /// abs -> Float
@@ -113,8 +113,15 @@ fn abs(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn toi(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     //args.check_args_num( 1, 1)?;
-    let num = self_val.as_float().unwrap().trunc() as i64;
-    Ok(Value::integer(num))
+    float_to_integer(self_val.as_float().unwrap())
+}
+
+/// Truncate `f` to Integer.
+pub(crate) fn float_to_integer(f: f64) -> VMResult {
+    match num::FromPrimitive::from_f64(f.trunc()) {
+        Some(num) => Ok(Value::bignum(num)),
+        None => Err(RubyError::float_domain(f)),
+    }
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 857dec7..9beaf21 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -329,9 +329,9 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     let val = match arg0.unpack() {
         RV::Integer(num) => num,
-        RV::Float(num) => num as i64,
+        RV::Float(num) => return super::float::float_to_integer(num),
         RV::Object(obj) => match obj.kind() {
-            ObjKind::STRING => match obj.string().parse::<num::BigInt>() {
+            ObjKind::STRING => match arg0.as_string().and_then(parse_integer) {
                 Some(num) => return Ok(Value::bignum(num)),
                 None => {
                     let inspect = vm.val_inspect(arg0)?;
@@ -353,6 +353,16 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     Ok(Value::integer(val))
 }
 
+/// The number `s` consists of, which may be surrounded by spaces and have single underscores between digits.
+fn parse_integer(s: &str) -> Option<num::BigInt> {
+    let s = s.trim_matches(|c: char| c.is_ascii_whitespace());
+    let digits = s.strip_prefix(&['-', '+'][..]).unwrap_or(s);
+    if digits.split('_').any(|part| part.is_empty()) {
+        return None;
+    }
+    s.replace('_', "").parse().ok()
+}
+
 fn kernel_complex(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 3)?;
     let arg0 = vm[0];
diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index 00ad734..2d1b8b4 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -26,7 +26,7 @@ fn inspect(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(r) => match r {
             Real::Bignum(n) => n.to_string(),
             Real::Integer(i) => i.to_string(),
-            Real::Float(f) => format!("{:?}", f),
+            Real::Float(f) => Value::float_format(f),
         },
         None => match self_val.as_complex() {
             Some((r, i)) => {
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 1cc8691..9cdbb95 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -300,6 +300,62 @@ fn expect_char(_: &mut VM, chars: &mut std::str::Chars) -> Result<char, RubyErro
     Ok(ch)
 }
 
+/// Append a digit to a width or precision of a format.
+fn format_number(num: usize, ch: char) -> Result<usize, RubyError> {
+    let num = num * 10 + ch as usize - '0' as usize;
+    if num > i32::MAX as usize {
+        return Err(RubyError::argument("Width too big."));
+    }
+    Ok(num)
+}
+
+/// Format an Integer, or a Float which is truncated.
+fn format_integer(
+    val: Value,
+    base: u32,
+    zero_flag: bool,
+    width: usize,
+    precision: Option<usize>,
+) -> Result<String, RubyError> {
+    use num::{BigInt, FromPrimitive};
+    let num = match val.to_real() {
+        Some(Real::Bignum(b)) => b,
+        Some(Real::Float(f)) => {
+            BigInt::from_f64(f.trunc()).ok_or_else(|| RubyError::float_domain(f))?
+        }
+        _ => BigInt::from(val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?),
+    };
+    let zero = BigInt::default();
+    let (prefix, mut digits, fill) = if num >= zero {
+        ("", num.to_str_radix(base), '0')
+    } else if base == 10 {
+        ("-", (-num).to_str_radix(base), '0')
+    } else {
+        // A negative number is shown as its two's complement, which has infinitely many leading ones.
+        let (fill, bits) = if base == 2 { ('1', 1) } else { ('f', 4) };
+        let len = (num.bits() / bits + 1) * bits;
+        let digits = ((BigInt::from(1) << len) + num).to_str_radix(base);
+        let digits = digits.trim_start_matches(fill);
+        ("..", format!("{}{}", fill, digits), fill)
+    };
+    let fill_to = |digits: String, len: usize| {
+        let lack = len.saturating_sub(digits.len());
+        fill.to_string().repeat(lack) + &digits
+    };
+    let mut prefix = prefix;
+    match precision {
+        Some(p) => {
+            if digits.len() < p && prefix == ".." {
+                prefix = "";
+            }
+            digits = fill_to(digits, p);
+        }
+        None if zero_flag => digits = fill_to(digits, width.saturating_sub(prefix.len())),
+        None => {}
+    }
+    Ok(format!("{:>w$}", format!("{}{}", prefix, digits), w = width))
+}
+
 macro_rules! next_char {
     ($ch:ident, $chars:ident) => {
         $ch = match $chars.next() {
@@ -353,75 +409,69 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         // Width
         let mut width = 0usize;
         while '0' <= ch && ch <= '9' {
-            width = width * 10 + ch as usize - '0' as usize;
+            width = format_number(width, ch)?;
             ch = expect_char(vm, &mut chars)?;
         }
         // Precision
-        let mut precision = 0usize;
+        let mut precision = None;
         if ch == '.' {
+            let mut num = 0usize;
             ch = expect_char(vm, &mut chars)?;
             while '0' <= ch && ch <= '9' {
-                precision = precision * 10 + ch as usize - '0' as usize;
+                num = format_number(num, ch)?;
                 ch = expect_char(vm, &mut chars)?;
             }
+            precision = Some(num);
         };
         if arguments.len() <= arg_no {
             return Err(RubyError::argument("Too few arguments"));
         };
         // Specifier
-        let mut val = arguments[arg_no];
+        let val = arguments[arg_no];
         arg_no += 1;
         let format = match ch {
-            'd' => {
-                let val = val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?;
-                if zero_flag {
-                    format!("{:0w$.p$}", val, w = width, p = precision)
-                } else {
-                    format!("{:w$.p$}", val, w = width, p = precision)
-                }
-            }
-            'b' => {
-                let val = val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?;
-                if zero_flag {
-                    format!("{:0w$b}", val, w = width)
-                } else {
-                    format!("{:w$b}", val, w = width)
-                }
-            }
-            'x' => {
-                let val = val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?;
-                if zero_flag {
-                    format!("{:0w$x}", val, w = width)
-                } else {
-                    format!("{:w$x}", val, w = width)
-                }
-            }
-            'X' => {
-                let val = val.coerce_to_fixnum("Value for the placeholder")?;
-                if zero_flag {
-                    format!("{:0w$X}", val, w = width)
-                } else {
-                    format!("{:w$X}", val, w = width)
-                }
-            }
+            'd' => format_integer(val, 10, zero_flag, width, precision)?,
+            'b' => format_integer(val, 2, zero_flag, width, precision)?,
+            'x' => format_integer(val, 16, zero_flag, width, precision)?,
+            'X' => format_integer(val, 16, zero_flag, width, precision)?.to_uppercase(),
             'f' => {
-                let f = match val.as_float() {
-                    Some(f) => f,
+                let f = match val.to_real() {
+                    Some(Real::Float(f)) => f,
+                    Some(Real::Integer(i)) => i as f64,
+                    Some(Real::Bignum(b)) => num::ToPrimitive::to_f64(&b).unwrap(),
                     None => val.coerce_to_fixnum("Value for the placeholder")? as f64,
                 };
-                if zero_flag {
-                    format!("{:0w$.p$}", f, w = width, p = precision)
+                let p = precision.unwrap_or(6);
+                if !f.is_finite() {
+                    let s = match f {
+                        f if f.is_nan() => "NaN",
+                        f if f > 0.0 => "Inf",
+                        _ => "-Inf",
+                    };
+                    format!("{:>w$}", s, w = width)
+                } else if zero_flag {
+                    format!("{:0w$.p$}", f, w = width, p = p)
                 } else {
-                    format!("{:w$.p$}", f, w = width, p = precision)
+                    format!("{:w$.p$}", f, w = width, p = p)
                 }
             }
             'c' => {
-                let val = val.coerce_to_fixnum("Value for the placeholder")?;
-                let ch = char::from_u32(val as u32)
-                    .ok_or_else(|| RubyError::argument("Invalid value for placeholder."))?;
-                format!("{}", ch)
+                let ch = match val.as_string() {
+                    Some(s) => s.chars().next(),
+                    None => {
+                        let val = val.coerce_to_fixnum("Value for the placeholder")?;
+                        num::ToPrimitive::to_u32(&val).and_then(char::from_u32)
+                    }
+                };
+                let ch =
+                    ch.ok_or_else(|| RubyError::argument("Invalid value for placeholder."))?;
+                format!("{:>w$}", ch, w = width)
+            }
+            's' => {
+                let s = val.val_to_s(vm)?;
+                let p = precision.unwrap_or(usize::MAX);
+                format!("{:>w$.p$}", s, w = width, p = p)
             }
-            's' => val.expect_string("Value for placeholder")?.to_string(),
             _ => {
                 return Err(RubyError::argument(format!(
                     "Invalid format character. {}",
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 10b0692..8ec75c0 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -296,12 +296,24 @@ impl Value {
         }
     }
 
-    fn float_format(f: f64) -> String {
+    /// The shortest text which denotes `f`.
+    pub(crate) fn float_format(f: f64) -> String {
         let fabs = f.abs();
-        if fabs < 0.0001 || fabs >= 1000000000000000.0 {
-            format!("{:.1e}", f)
+        if f.is_nan() {
+            "NaN".to_string()
+        } else if f.is_infinite() {
+            if f > 0.0 { "Infinity" } else { "-Infinity" }.to_string()
+        } else if f == 0.0 || (0.0001..1e16).contains(&fabs) {
+            format!("{:?}", f)
         } else {
-            format!("{}", f)
+            let s = format!("{:e}", f);
+            let (mantissa, exp) = s.split_once('e').unwrap();
+            let (sign, exp) = match exp.strip_prefix('-') {
+                Some(exp) => ('-', exp),
+                None => ('+', exp),
+            };
+            let frac = if mantissa.contains('.') { "" } else { ".0" };
+            format!("{}{}e{}{:0>2}", mantissa, frac, sign, exp)
         }
     }
 
@@ -387,13 +399,7 @@ impl Value {
             RV::True => Cow::from("true"),
             RV::False => Cow::from("false"),
             RV::Integer(i) => Cow::from(i.to_string()),
-            RV::Float(f) => {
-                if f.fract() == 0.0 {
-                    Cow::from(format!("{:.1}", f))
-                } else {
-                    Cow::from(f.to_string())
-                }
-            }
+            RV::Float(f) => Value::float_format(f).into(),
             RV::Symbol(i) => Cow::from(format!("{:?}", i)),
             RV::Object(oref) => match oref.kind() {
                 ObjKind::INVALID => panic!("Invalid rvalue. (maybe GC problem) {:?}", *oref),
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index df88c1c..6dc7ab4 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -892,13 +892,7 @@ impl VM {
             RV::True => "true".to_string(),
             RV::False => "false".to_string(),
             RV::Integer(i) => i.to_string(),
-            RV::Float(f) => {
-                if f.fract() == 0.0 {
-                    format!("{:.1}", f)
-                } else {
-                    f.to_string()
-                }
-            }
+            RV::Float(f) => Value::float_format(f),
             RV::Symbol(sym) => format!(":{:?}", sym),
             RV::Object(oref) => match oref.kind() {
                 ObjKind::INVALID => "[Invalid]".to_string(),
-- 
2.43.0


From dd4ad1ff321784f8772ae6ada939c09e6c42dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:48 +0000
Subject: [PATCH 48/57] fix: equality of equal hashes, ranges and structs by
 <=> and ==, and of recursive containers

---
 ruruby/src/builtin/array.rs     | 32 +++++++++----------------
 ruruby/src/builtin/object.rs    |  3 ++-
 ruruby/src/builtin/structobj.rs | 30 +++++++++++++++++++++++
 ruruby/src/value/hash.rs        | 22 +++++++++++++++++
 ruruby/src/value/rvalue.rs      | 18 +++++++-------
 ruruby/src/value/value.rs       | 12 ++++++++--
 ruruby/src/vm/executor/ops.rs   | 42 ++++++++++++++++++++++++++-------
 7 files changed, 117 insertions(+), 42 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index b1a9443..65b8111 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -207,37 +207,27 @@ fn set_elem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    if self_val.id() == vm[0].id() {
+    let other = vm[0];
+    if self_val.id() == other.id() {
         return Ok(Value::integer(0));
     }
     let lhs = self_val.into_array();
-    let rhs = match vm[0].as_array() {
+    let rhs = match other.as_array() {
         Some(aref) => aref,
         None => return Ok(Value::nil()),
     };
-    if lhs.len() >= rhs.len() {
-        for (i, rhs_v) in rhs.iter().enumerate() {
-            match vm.eval_compare(*rhs_v, lhs[i])?.as_fixnum() {
-                Some(0) => {}
+    let (lid, rid) = (self_val.id() as usize, other.id() as usize);
+    compare_once(lid, rid, Ok(Value::nil()), || {
+        let mut i = 0;
+        while i < lhs.len() && i < rhs.len() {
+            match vm.eval_compare(rhs[i], lhs[i])?.as_fixnum() {
+                Some(0) => i += 1,
                 Some(ord) => return Ok(Value::fixnum(ord)),
                 None => return Ok(Value::nil()),
             }
         }
-        if lhs.len() == rhs.len() {
-            Ok(Value::fixnum(0))
-        } else {
-            Ok(Value::fixnum(1))
-        }
-    } else {
-        for (i, lhs_v) in lhs.iter().enumerate() {
-            match vm.eval_compare(rhs[i], *lhs_v)?.as_fixnum() {
-                Some(0) => {}
-                Some(ord) => return Ok(Value::fixnum(ord)),
-                None => return Ok(Value::nil()),
-            }
-        }
-        Ok(Value::fixnum(-1))
-    }
+        Ok(Value::fixnum(lhs.len().cmp(&rhs.len()) as i64))
+    })
 }
 
 fn push(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 87d8e00..4da9e52 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -374,7 +374,8 @@ fn match_(_: &mut VM, _: Value, args: &Args2) -> VMResult {
 
 fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let res = if equal(vm, self_val, args)?.to_bool() {
+    let other = vm[0];
+    let res = if self_val.id() == other.id() || vm.eval_eq2(other, self_val)? {
         Value::integer(0)
     } else {
         Value::nil()
diff --git a/ruruby/src/builtin/structobj.rs b/ruruby/src/builtin/structobj.rs
index ea52c3f..8ea7aa9 100644
--- a/ruruby/src/builtin/structobj.rs
+++ b/ruruby/src/builtin/structobj.rs
@@ -32,6 +32,7 @@ fn struct_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     class.add_builtin_method_by_str(&mut vm.globals, "initialize", initialize);
     class.add_builtin_method_by_str(&mut vm.globals, "inspect", inspect);
+    class.add_builtin_method_by_str(&mut vm.globals, "==", eq);
     class.add_builtin_class_method(&mut vm.globals, "[]", builtin::class::new);
     class.add_builtin_class_method(&mut vm.globals, "new", builtin::class::new);
 
@@ -87,6 +88,35 @@ fn initialize(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::nil())
 }
 
+fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let other = vm[0];
+    if self_val.id() == other.id() {
+        return Ok(Value::true_val());
+    }
+    if vm.globals.get_class(self_val).id() != vm.globals.get_class(other).id() {
+        return Ok(Value::false_val());
+    }
+    let members = get_members(vm, self_val)?;
+    let same = compare_once(
+        self_val.id() as usize,
+        other.id() as usize,
+        Ok(true),
+        || {
+            for x in members.iter() {
+                let id = x.as_symbol().unwrap().add_prefix("@");
+                let lhs = self_val.get_var(id).unwrap_or_default();
+                let rhs = other.get_var(id).unwrap_or_default();
+                if !vm.eval_eq2(rhs, lhs)? {
+                    return Ok(false);
+                }
+            }
+            Ok(true)
+        },
+    )?;
+    Ok(Value::bool(same))
+}
+
 use std::borrow::Cow;
 fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
     let mut inspect = format!("#<struct ");
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 895ce17..8b0712f 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -38,6 +38,28 @@ pub(crate) fn visit_once(addr: usize, f: impl FnOnce()) {
     }
 }
 
+thread_local! {
+    static COMPARING: std::cell::RefCell<Vec<(usize, usize)>> = std::cell::RefCell::new(vec![]);
+}
+
+/// Do `f`, or answer `same` if the same two (recursive) objects are already being compared.
+pub(crate) fn compare_once<R>(lhs: usize, rhs: usize, same: R, f: impl FnOnce() -> R) -> R {
+    let comparing = COMPARING.with(|v| {
+        let mut v = v.borrow_mut();
+        let comparing = v.contains(&(lhs, rhs));
+        if !comparing {
+            v.push((lhs, rhs));
+        }
+        comparing
+    });
+    if comparing {
+        return same;
+    }
+    let res = f();
+    COMPARING.with(|v| v.borrow_mut().pop());
+    res
+}
+
 /// The order of the pairs must not affect the hash value.
 fn hash_pairs<'a, K: Hash + 'a>(iter: impl Iterator<Item = (&'a K, &'a Value)>) -> u64 {
     iter.fold(0, |acc: u64, pair| {
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 3ff6296..640d769 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -424,19 +424,17 @@ impl RValue {
                 if lhs.len() != rhs.len() {
                     return false;
                 }
-                lhs.iter().zip(rhs.iter()).all(|(a1, a2)| {
-                    // Support self-containing arrays.
-                    if self.id() == a1.id() && other.id() == a2.id() {
-                        true
-                    } else if self.id() == a1.id() || other.id() == a2.id() {
-                        false
-                    } else {
-                        a1.eql(a2)
-                    }
+                // Support self-containing arrays.
+                compare_once(self.id() as usize, other.id() as usize, true, || {
+                    lhs.iter().zip(rhs.iter()).all(|(a1, a2)| a1.eql(a2))
                 })
             }
             (ObjKind::RANGE, ObjKind::RANGE) => self.range().eql(&other.range()),
-            (ObjKind::HASH, ObjKind::HASH) => self.rhash().eql(other.rhash()),
+            (ObjKind::HASH, ObjKind::HASH) => {
+                compare_once(self.id() as usize, other.id() as usize, true, || {
+                    self.rhash().eql(other.rhash())
+                })
+            }
             (ObjKind::REGEXP, ObjKind::REGEXP) => *self.regexp() == *other.regexp(),
             (ObjKind::METHOD, ObjKind::METHOD) => *self.method() == *other.method(),
             (ObjKind::UNBOUND_METHOD, ObjKind::UNBOUND_METHOD) => *self.method() == *other.method(),
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 8ec75c0..a4385dc 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -93,12 +93,20 @@ impl PartialEq for Value {
             (ObjKind::STRING, ObjKind::STRING) => {
                 lhs.string().as_bytes() == rhs.string().as_bytes()
             }
-            (ObjKind::ARRAY, ObjKind::ARRAY) => **lhs.array() == **rhs.array(),
+            (ObjKind::ARRAY, ObjKind::ARRAY) => {
+                compare_once(self.id() as usize, other.id() as usize, true, || {
+                    **lhs.array() == **rhs.array()
+                })
+            }
             (ObjKind::RANGE, ObjKind::RANGE) => {
                 let (lhs, rhs) = (&*lhs.range(), &*rhs.range());
                 lhs.exclude == rhs.exclude && lhs.start == rhs.start && rhs.end == lhs.end
             }
-            (ObjKind::HASH, ObjKind::HASH) => *lhs.rhash() == *rhs.rhash(),
+            (ObjKind::HASH, ObjKind::HASH) => {
+                compare_once(self.id() as usize, other.id() as usize, true, || {
+                    *lhs.rhash() == *rhs.rhash()
+                })
+            }
             (ObjKind::REGEXP, ObjKind::REGEXP) => *lhs.regexp() == *rhs.regexp(),
             (ObjKind::TIME, ObjKind::TIME) => *lhs.time() == *rhs.time(),
             (ObjKind::PROC, ObjKind::PROC) => *lhs.proc() == *rhs.proc(),
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index f4ba8dc..e004064 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -493,16 +493,20 @@ impl VM {
                 Ok(lhsr.string().as_bytes() == rhsr.string().as_bytes())
             }
             (ObjKind::ARRAY, ObjKind::ARRAY) => {
-                let (lhs, rhs) = (&*lhsr.array(), &*rhsr.array());
-                if lhs.len() != rhs.len() {
+                let (lary, rary) = (lhsr.array(), rhsr.array());
+                if lary.len() != rary.len() {
                     return Ok(false);
                 }
-                for (l, r) in lhs.iter().zip(rhs.iter()) {
-                    if !self.eval_eq2(*r, *l)? {
-                        return Ok(false);
+                compare_once(lhs.id() as usize, rhs.id() as usize, Ok(true), || {
+                    let mut i = 0;
+                    while i < lary.len() && i < rary.len() {
+                        if !self.eval_eq2(rary[i], lary[i])? {
+                            return Ok(false);
+                        }
+                        i += 1;
                     }
-                }
-                Ok(true)
+                    Ok(true)
+                })
             }
             (ObjKind::RANGE, ObjKind::RANGE) => {
                 let (lhs, rhs) = (&*lhsr.range(), &*rhsr.range());
@@ -510,7 +514,29 @@ impl VM {
                     && self.eval_eq2(rhs.start, lhs.start)?
                     && self.eval_eq2(rhs.end, lhs.end)?)
             }
-            (ObjKind::HASH, ObjKind::HASH) => Ok(*lhsr.rhash() == *rhsr.rhash()),
+            (ObjKind::HASH, ObjKind::HASH) => match (lhsr.rhash(), rhsr.rhash()) {
+                (HashInfo::Map(lmap), HashInfo::Map(rmap)) => {
+                    if lmap.len() != rmap.len() {
+                        return Ok(false);
+                    }
+                    let pairs: Vec<_> = lmap.iter().map(|(k, v)| (k.0, *v)).collect();
+                    compare_once(lhs.id() as usize, rhs.id() as usize, Ok(true), || {
+                        for (k, v) in pairs {
+                            match rhsr.rhash().get(&k) {
+                                Some(v2) if v2.id() == v.id() => {}
+                                Some(v2) => {
+                                    if !self.eval_eq2(*v2, v)? {
+                                        return Ok(false);
+                                    }
+                                }
+                                None => return Ok(false),
+                            }
+                        }
+                        Ok(true)
+                    })
+                }
+                (lhs, rhs) => Ok(*lhs == *rhs),
+            },
             (ObjKind::REGEXP, ObjKind::REGEXP) => Ok(*lhsr.regexp() == *rhsr.regexp()),
             (ObjKind::TIME, ObjKind::TIME) => Ok(*lhsr.time() == *rhsr.time()),
             (ObjKind::INVALID, _) | (_, ObjKind::INVALID) => {
-- 
2.43.0


From 458a8e653c0bc90c703d2ef3042e187fe49d05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:23 +0000
Subject: [PATCH 49/57] fix: defined? changed variables, raised exceptions of
 receivers, and ignored yield and super

---
 ruruby-common/src/vm_inst.rs       |  6 ++
 ruruby/src/codegen/defined.rs      | 95 ++++++++++++++++++++++--------
 ruruby/src/vm/executor/opt_core.rs | 18 ++++++
 3 files changed, 96 insertions(+), 23 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 19f71a6..13e07b0 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -42,6 +42,8 @@ impl Inst {
     pub const CHECK_IVAR: u8 = 53;
     pub const CHECK_GVAR: u8 = 54;
     pub const CHECK_METHOD: u8 = 55;
+    pub const CHECK_BLOCK: u8 = 56;
+    pub const CHECK_SUPER: u8 = 57;
 
     pub const SEND: u8 = 60;
     pub const OPT_SEND: u8 = 66;
@@ -207,6 +209,8 @@ impl Inst {
             Inst::CHECK_IVAR => "CHECK_IVAR",
             Inst::CHECK_GVAR => "CHECK_GVAR",
             Inst::CHECK_METHOD => "CHECK_METHOD",
+            Inst::CHECK_BLOCK => "CHECK_BLOCK",
+            Inst::CHECK_SUPER => "CHECK_SUPER",
 
             Inst::SEND => "SEND",
             Inst::OPT_SEND => "O_SEND",
@@ -288,6 +292,8 @@ impl Inst {
             | Inst::POP
             | Inst::BREAK
             | Inst::MRETURN
+            | Inst::CHECK_BLOCK
+            | Inst::CHECK_SUPER
             | Inst::THROW => 1,
                                         // operand
             Inst::SET_LOCAL           // LvarId: u32
diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index 0679329..e3f0086 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -11,6 +11,19 @@ impl Codegen {
         let mut nil_labels = vec![];
         let mut exceptions = vec![];
         let s = defined_str(&content);
+        let sp = match &content.kind {
+            NodeKind::Scope(..)
+            | NodeKind::Array(..)
+            | NodeKind::BinOp(..)
+            | NodeKind::UnOp(..)
+            | NodeKind::Index { .. }
+            | NodeKind::Send { .. } => {
+                // Operands of a receiver which raised an exception must be dropped.
+                let name = format!("%df{}", iseq.current().into_usize());
+                Some(self.gen_save_sp(iseq, name))
+            }
+            _ => None,
+        };
         self.check_defined(globals, &content, iseq, &mut nil_labels, &mut exceptions)?;
         iseq.gen_string(globals, s);
         let end = iseq.gen_jmp();
@@ -18,6 +31,10 @@ impl Codegen {
         for ex in exceptions {
             self.push_ex_continue(ex.0, ex.1, pos);
         }
+        if let Some(sp) = sp {
+            iseq.push(Inst::RESTORE_SP);
+            iseq.push32(sp.as_u32());
+        }
         iseq.push(Inst::POP);
         nil_labels
             .iter()
@@ -99,7 +116,7 @@ impl Codegen {
             }
             NodeKind::Scope(box parent, id) => {
                 self.check_defined(globals, parent, iseq, nil_labels, exceptions)?;
-                self.gen(globals, iseq, parent.clone(), true)?;
+                self.check_receiver(globals, parent, iseq, exceptions)?;
                 iseq.push(Inst::CHECK_SCOPE);
                 iseq.push32((*id).into());
                 nil_labels.push(iseq.gen_jmp_if_t());
@@ -111,30 +128,21 @@ impl Codegen {
                 }
                 Ok(())
             }
-            NodeKind::AssignOp(_, box lhs, _) => match lhs.kind {
-                NodeKind::LocalVar(id) | NodeKind::Ident(id) => {
-                    iseq.gen_push_nil();
-                    self.emit_set_local(iseq, id);
-                    Ok(())
-                }
-                _ => Ok(()),
-            },
+            NodeKind::AssignOp(_, box lhs, _) => {
+                self.check_declared(iseq, lhs);
+                Ok(())
+            }
             NodeKind::MulAssign(mlhs, _) => {
                 for lhs in mlhs {
-                    match lhs.kind {
-                        NodeKind::LocalVar(id) | NodeKind::Ident(id) => {
-                            iseq.gen_push_nil();
-                            self.emit_set_local(iseq, id);
-                        }
-                        _ => {}
-                    }
+                    self.check_declared(iseq, lhs);
                 }
                 Ok(())
             }
+            NodeKind::BinOp(BinOp::LAnd | BinOp::LOr, ..) => Ok(()),
             NodeKind::BinOp(op, box lhs, box rhs) => {
                 self.check_defined(globals, lhs, iseq, nil_labels, exceptions)?;
                 self.check_defined(globals, rhs, iseq, nil_labels, exceptions)?;
-                self.gen(globals, iseq, lhs.clone(), true)?;
+                self.check_receiver(globals, lhs, iseq, exceptions)?;
                 iseq.push(Inst::CHECK_METHOD);
                 iseq.push32((op.to_method()).into());
                 nil_labels.push(iseq.gen_jmp_if_t());
@@ -142,7 +150,7 @@ impl Codegen {
             }
             NodeKind::UnOp(op, box node) => {
                 self.check_defined(globals, node, iseq, nil_labels, exceptions)?;
-                self.gen(globals, iseq, node.clone(), true)?;
+                self.check_receiver(globals, node, iseq, exceptions)?;
                 iseq.push(Inst::CHECK_METHOD);
                 iseq.push32((op.to_method()).into());
                 nil_labels.push(iseq.gen_jmp_if_t());
@@ -153,12 +161,22 @@ impl Codegen {
                 for i in index {
                     self.check_defined(globals, i, iseq, nil_labels, exceptions)?
                 }
-                self.gen(globals, iseq, base.clone(), true)?;
+                self.check_receiver(globals, base, iseq, exceptions)?;
                 iseq.push(Inst::CHECK_METHOD);
                 iseq.push32(IdentId::get_id("[]").into());
                 nil_labels.push(iseq.gen_jmp_if_t());
                 Ok(())
             }
+            NodeKind::Yield(_) => {
+                iseq.push(Inst::CHECK_BLOCK);
+                nil_labels.push(iseq.gen_jmp_if_t());
+                Ok(())
+            }
+            NodeKind::Super(_) => {
+                iseq.push(Inst::CHECK_SUPER);
+                nil_labels.push(iseq.gen_jmp_if_t());
+                Ok(())
+            }
             NodeKind::Send {
                 box receiver,
                 arglist,
@@ -169,10 +187,7 @@ impl Codegen {
                 for n in &arglist.args {
                     self.check_defined(globals, n, iseq, nil_labels, exceptions)?
                 }
-                let start = iseq.current();
-                self.gen(globals, iseq, receiver.clone(), true)?;
-                let end = iseq.current();
-                exceptions.push((start, end));
+                self.check_receiver(globals, receiver, iseq, exceptions)?;
                 iseq.push(Inst::CHECK_METHOD);
                 iseq.push32((*method).into());
                 nil_labels.push(iseq.gen_jmp_if_t());
@@ -181,6 +196,37 @@ impl Codegen {
             _ => Ok(()),
         }
     }
+
+    /// Evaluate the receiver `node`. An exception means that the whole is not defined.
+    fn check_receiver(
+        &mut self,
+        globals: &mut Globals,
+        node: &Node,
+        iseq: &mut ISeq,
+        exceptions: &mut Vec<(ISeqPos, ISeqPos)>,
+    ) -> Result<(), RubyError> {
+        let start = iseq.current();
+        self.gen(globals, iseq, node.clone(), true)?;
+        exceptions.push((start, iseq.current()));
+        Ok(())
+    }
+
+    /// A local variable which would be assigned is declared, but keeps its value.
+    fn check_declared(&mut self, iseq: &mut ISeq, lhs: &Node) {
+        let id = match lhs.kind {
+            NodeKind::LocalVar(id) | NodeKind::Ident(id) => id,
+            _ => return,
+        };
+        if let Some((outer, lvar_id)) = self.get_local_var(id) {
+            iseq.push(Inst::CHECK_LOCAL);
+            iseq.push32(lvar_id.as_u32());
+            iseq.push32(outer);
+            let assigned = iseq.gen_jmp_if_f();
+            iseq.gen_push_nil();
+            self.emit_set_local(iseq, id);
+            iseq.write_disp_from_cur(assigned);
+        }
+    }
 }
 
 /// This method returns str corresponding to the type of `self` for `defined?`.
@@ -202,10 +248,13 @@ fn defined_str(node: &Node) -> &'static str {
             }
         }
         NodeKind::AssignOp(..) => "assignment",
+        NodeKind::BinOp(BinOp::LAnd | BinOp::LOr, ..) => "expression",
         NodeKind::BinOp(..)
         | NodeKind::UnOp(..)
         | NodeKind::Index { .. }
         | NodeKind::Send { .. } => "method",
+        NodeKind::Yield(_) => "yield",
+        NodeKind::Super(_) => "super",
         NodeKind::Bool(true) => "true",
         NodeKind::Bool(false) => "false",
         NodeKind::Nil => "nil",
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index ecc2c3f..635a4be 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -463,6 +463,24 @@ impl VM {
                         let is_undef = rec_class.search_method(method).is_none();
                         self.stack_push(Value::bool(is_undef));
                     }
+                    Inst::CHECK_BLOCK => {
+                        let is_undef = self.get_method_block().is_none();
+                        self.stack_push(Value::bool(is_undef));
+                    }
+                    Inst::CHECK_SUPER => {
+                        let iseq = self.get_method_iseq();
+                        let is_undef = match iseq.kind {
+                            ISeqKind::Method(Some(m_id)) => {
+                                let class = self.globals.get_class_for_method(self_val);
+                                self.globals
+                                    .methods
+                                    .find_super_method(class, iseq, m_id)
+                                    .is_none()
+                            }
+                            _ => true,
+                        };
+                        self.stack_push(Value::bool(is_undef));
+                    }
                     Inst::SEND => dispatch!(self.vm_send(), true),
                     Inst::OPT_SEND => dispatch!(self.vm_fast_send(true), true),
                     Inst::OPT_SEND_N => dispatch!(self.vm_fast_send(false), false),
-- 
2.43.0


From 1118b8965983194b644980ff874243469b9f7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:35 +0000
Subject: [PATCH 50/57] fix: defined? of a parenthesized expression

---
 ruruby/src/codegen/defined.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index e3f0086..9dede47 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -8,6 +8,7 @@ impl Codegen {
         iseq: &mut ISeq,
         content: Node,
     ) -> Result<(), RubyError> {
+        let content = unwrap_paren(&content).clone();
         let mut nil_labels = vec![];
         let mut exceptions = vec![];
         let s = defined_str(&content);
@@ -56,6 +57,7 @@ impl Codegen {
         nil_labels: &mut Vec<ISeqPos>,
         exceptions: &mut Vec<(ISeqPos, ISeqPos)>,
     ) -> Result<(), RubyError> {
+        let node = unwrap_paren(node);
         match &node.kind {
             NodeKind::LocalVar(id) => {
                 match self.get_local_var(*id) {
@@ -229,6 +231,14 @@ impl Codegen {
     }
 }
 
+/// The expression in the parentheses if `node` is a parenthesized expression.
+fn unwrap_paren(node: &Node) -> &Node {
+    match &node.kind {
+        NodeKind::CompStmt(nodes) if nodes.len() == 1 => unwrap_paren(&nodes[0]),
+        _ => node,
+    }
+}
+
 /// This method returns str corresponding to the type of `self` for `defined?`.
 fn defined_str(node: &Node) -> &'static str {
     match &node.kind {
-- 
2.43.0


From c7782def2f7fb7a71031a4a7f76031adad99d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:36 +0000
Subject: [PATCH 51/57] fix: paths, File.join and Dir.glob act like the file
 system's, binary contents can be read and written

---
 ruruby/src/builtin/dir.rs  |  55 +++++++-------
 ruruby/src/builtin/file.rs | 148 ++++++++++++++++++-------------------
 2 files changed, 102 insertions(+), 101 deletions(-)

diff --git a/ruruby/src/builtin/dir.rs b/ruruby/src/builtin/dir.rs
index 160a691..71b6100 100644
--- a/ruruby/src/builtin/dir.rs
+++ b/ruruby/src/builtin/dir.rs
@@ -55,25 +55,21 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
             Some(ch) => match ch {
                 '?' => charbuf.push('.'),
                 '*' => {
-                    if charbuf.len() == 1 {
-                        if pattern.peek() == Some(&'*') {
+                    if charbuf.len() == 1 && pattern.peek() == Some(&'*') {
+                        pattern.next();
+                        if pattern.peek() == Some(&'/') {
                             pattern.next();
-                            if pattern.peek() == Some(&'/') {
-                                pattern.next();
-                                glob.push("*".to_string());
-                                charbuf = vec!['^'];
-                                continue;
-                            }
+                            glob.push("*".to_string());
+                            charbuf = vec!['^'];
+                            continue;
                         }
-                        charbuf.append(&mut r#"(?:[^\.].*)?"#.chars().collect());
-                    } else {
-                        charbuf.push('.');
-                        charbuf.push('*');
                     }
+                    charbuf.push('.');
+                    charbuf.push('*');
                 }
-                '.' => {
+                '.' | '+' | '(' | ')' | '|' | '{' | '}' | '^' | '$' => {
                     charbuf.push('\\');
-                    charbuf.push('.');
+                    charbuf.push(ch);
                 }
                 '/' => {
                     charbuf.push('$');
@@ -91,16 +87,19 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
             }
         }
     }
-    let glob: Vec<_> = glob
-        .iter()
-        .map(|s| {
-            if s == "*" {
-                None
-            } else {
-                Some(regex::Regex::new(s).unwrap())
+    let mut patterns = vec![];
+    for s in &glob {
+        patterns.push(if s == "*" {
+            None
+        } else {
+            match regex::RegexBuilder::new(s).dot_matches_new_line(true).build() {
+                Ok(re) => Some(re),
+                // A malformed pattern matches nothing.
+                Err(_) => return Ok(Value::array_empty()),
             }
-        })
-        .collect();
+        });
+    }
+    let glob = patterns;
     if glob.is_empty() {
         return Ok(Value::array_empty());
     }
@@ -115,6 +114,12 @@ fn glob(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     ))
 }
 
+/// Whether `name` matches a component of a pattern.
+/// A leading period must be matched explicitly.
+fn match_name(re: &regex::Regex, name: &str) -> bool {
+    (!name.starts_with('.') || re.as_str().starts_with(r"^\.")) && re.is_match(name)
+}
+
 fn traverse_dir(
     full_path: &PathBuf,
     path: &PathBuf,
@@ -140,14 +145,14 @@ fn traverse_dir(
         let name_cow = name.to_string_lossy();
         let state = match &glob[level] {
             Some(re) => {
-                if re.find(&name_cow).is_none() {
+                if !match_name(re, &name_cow) {
                     continue;
                 } else {
                     MatchState::Match
                 }
             }
             None => match glob.get(level + 1) {
-                Some(Some(re)) if re.find(&name_cow).is_some() => MatchState::NextMatch,
+                Some(Some(re)) if match_name(re, &name_cow) => MatchState::NextMatch,
                 _ => MatchState::WildMatch,
             },
         };
diff --git a/ruruby/src/builtin/file.rs b/ruruby/src/builtin/file.rs
index a8d045e..337ba6f 100644
--- a/ruruby/src/builtin/file.rs
+++ b/ruruby/src/builtin/file.rs
@@ -30,15 +30,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 /// Convert Ruby String value`string` to PathBuf.
 fn string_to_path(_: &mut VM, mut string: Value, msg: &str) -> Result<PathBuf, RubyError> {
     let file = string.expect_string(msg)?;
-    let mut path = PathBuf::new();
-    for p in PathBuf::from(file).iter() {
-        if p == ".." && path.file_name().is_some() {
-            path.pop();
-        } else {
-            path.push(p);
-        };
-    }
-    Ok(path)
+    Ok(PathBuf::from(file))
 }
 
 /// Canonicalize PathBuf.
@@ -71,60 +63,72 @@ pub(crate) fn string_to_canonicalized_path(
 // Class methods
 
 fn join(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
-    fn flatten(vm: &mut VM, path: &mut String, mut val: Value) -> Result<(), RubyError> {
-        match val.as_array() {
-            Some(ainfo) => {
-                for v in ainfo.iter() {
-                    flatten(vm, path, *v)?;
-                }
-            }
-            None => {
-                if !path.is_empty() && !path.ends_with('/') {
+    fn join_parts(parts: impl Iterator<Item = Value>) -> Result<String, RubyError> {
+        let mut path = String::new();
+        for (i, mut val) in parts.enumerate() {
+            let part = match val.as_array() {
+                Some(ainfo) => join_parts(ainfo.iter().cloned())?,
+                None => val.expect_string("Args")?.to_string(),
+            };
+            if i > 0 {
+                if part.starts_with('/') {
+                    path.truncate(path.trim_end_matches('/').len());
+                } else if !path.ends_with('/') {
                     path.push('/');
                 }
-                let s = val.expect_string("Args")?;
-                path.push_str(if !path.is_empty() && s.starts_with('/') {
-                    &s[1..]
-                } else {
-                    s
-                });
             }
+            path.push_str(&part);
         }
-        Ok(())
-    }
-    let mut path = String::new();
-    for i in 0..args.len() {
-        flatten(vm, &mut path, vm[i])?;
+        Ok(path)
     }
+    let path = join_parts((0..args.len()).map(|i| vm[i]))?;
     Ok(Value::string(path))
 }
 
+/// The last component of the path.
+fn base_name(path: &str) -> &str {
+    let trimmed = path.trim_end_matches('/');
+    if trimmed.is_empty() {
+        return if path.is_empty() { "" } else { "/" };
+    }
+    match trimmed.rfind('/') {
+        Some(pos) => &trimmed[pos + 1..],
+        None => trimmed,
+    }
+}
+
 fn basename(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
-    let filename = string_to_path(vm, vm[0], "1st arg")?;
-    let basename = match filename.file_name() {
-        Some(ostr) => Value::string(ostr.to_string_lossy()),
-        None => Value::nil(),
-    };
-    Ok(basename)
+    let mut path = vm[0];
+    let path = path.expect_string("1st arg")?;
+    Ok(Value::string(base_name(path)))
 }
 
 fn extname(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
-    let filename = string_to_path(vm, vm[0], "1st arg")?;
-    let extname = match filename.extension() {
-        Some(ostr) => format!(".{}", ostr.to_string_lossy()),
-        None => "".to_string(),
+    let mut path = vm[0];
+    let path = path.expect_string("1st arg")?;
+    // Leading dots do not begin an extension.
+    let name = base_name(path).trim_start_matches('.');
+    let extname = match name.rfind('.') {
+        Some(pos) => &name[pos..],
+        None => "",
     };
     Ok(Value::string(extname))
 }
 
 fn dirname(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 1)?;
-    let filename = string_to_path(vm, vm[0], "1st arg")?;
-    let dirname = match filename.parent() {
-        Some(ostr) => conv_pathbuf(&ostr.to_path_buf()),
-        None => "".to_string(),
+    let mut path = vm[0];
+    let path = path.expect_string("1st arg")?;
+    let trimmed = path.trim_end_matches('/');
+    let dirname = match trimmed.rfind('/') {
+        Some(pos) => match trimmed[..pos].trim_end_matches('/') {
+            "" => "/",
+            dir => dir,
+        },
+        None if trimmed.is_empty() && !path.is_empty() => "/",
+        None => ".",
     };
     Ok(Value::string(dirname))
 }
@@ -162,12 +166,15 @@ fn read(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
             )))
         }
     };
-    let mut contents = String::new();
-    match file.read_to_string(&mut contents) {
+    let mut contents = vec![];
+    match file.read_to_end(&mut contents) {
         Ok(file) => file,
         Err(_) => return Err(RubyError::runtime("Could not read the file.")),
     };
-    Ok(Value::string(contents))
+    Ok(match String::from_utf8(contents) {
+        Ok(contents) => Value::string(contents),
+        Err(err) => Value::bytes(err.into_bytes()),
+    })
 }
 
 /// IO.readlines(path)
@@ -198,7 +205,7 @@ fn write(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     let mut arg0 = vm[0];
     let mut arg1 = vm[1];
     let filename = arg0.expect_string("1st arg")?;
-    let contents = arg1.expect_string("2nd arg")?;
+    let contents = arg1.expect_bytes("2nd arg")?;
     match std::fs::write(&filename, contents) {
         Ok(()) => {}
         Err(err) => {
@@ -218,35 +225,24 @@ fn expand_path(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
     let current_dir = std::env::current_dir()
         .or_else(|_| Err(RubyError::runtime("Failed to get current directory.")))?;
     let home_dir = dirs::home_dir().ok_or(RubyError::runtime("Failed to get home directory."))?;
-    let path = if len == 1 {
-        string_to_path(vm, vm[0], "1st arg")?
-    } else {
-        let mut path = string_to_path(vm, vm[1], "2nd arg")?;
-        let rel_path = string_to_path(vm, vm[0], "1st arg")?;
-        path.push(rel_path);
-        path
-    };
-
-    let mut res_path = PathBuf::new();
-    res_path.push(current_dir);
-
-    for elem in path.components() {
-        match elem {
-            Component::CurDir => {}
-            Component::Normal(comp) if comp == "~" => {
-                res_path.clear();
-                res_path.push(home_dir.clone());
-            }
-            Component::Normal(comp) => res_path.push(comp),
-            Component::ParentDir => {
-                res_path.pop();
-            }
-            Component::RootDir => {
-                res_path.clear();
-                res_path.push(Component::RootDir);
-            }
-            _ => {}
-        };
+    let mut res_path = current_dir;
+    for i in (0..len).rev() {
+        let path = string_to_path(vm, vm[i], if i == 0 { "1st arg" } else { "2nd arg" })?;
+        for (pos, elem) in path.components().enumerate() {
+            match elem {
+                Component::CurDir => {}
+                Component::Normal(comp) if comp == "~" && pos == 0 => res_path = home_dir.clone(),
+                Component::Normal(comp) => res_path.push(comp),
+                Component::ParentDir => {
+                    res_path.pop();
+                }
+                Component::RootDir => {
+                    res_path.clear();
+                    res_path.push(Component::RootDir);
+                }
+                _ => {}
+            };
+        }
     }
     #[cfg(windows)]
     let res_path = PathBuf::from(
-- 
2.43.0


From 6533ffa23e7e008c5d0b29ab85f061daaa20a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:11 +0000
Subject: [PATCH 52/57] fix: octal and upper-case integer prefixes, big binary
 literals and one-digit \x escapes are read as written

---
 ruruby-parse/src/parser/lexer.rs | 45 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 74f671d..7b4a52a 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -604,10 +604,15 @@ impl<'a> Lexer<'a> {
     /// Read number literal.
     fn read_number_literal(&mut self, ch: char) -> Result<Token, ParseErr> {
         if ch == '0' {
-            if self.consume('x') {
+            if self.consume('x') || self.consume('X') {
                 return self.read_hex_number();
-            } else if self.consume('b') {
-                return self.read_bin_number();
+            } else if self.consume('b') || self.consume('B') {
+                return self.read_radix_number(2);
+            } else if self.consume('o') || self.consume('O') {
+                return self.read_radix_number(8);
+            } else if matches!(self.peek(), Some('0'..='9' | '_')) {
+                self.consume('_');
+                return self.read_radix_number(8);
             }
         };
         let mut s = ch.to_string();
@@ -694,25 +699,34 @@ impl<'a> Lexer<'a> {
         }
     }
 
-    /// Read binary number.
-    fn read_bin_number(&mut self) -> Result<Token, ParseErr> {
+    /// Read binary or octal number.
+    fn read_radix_number(&mut self, radix: u32) -> Result<Token, ParseErr> {
         let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
-            Some(_) => {
-                return Err(self.error_unexpected(self.pos));
-            }
+            Some(ch) => match ch.to_digit(radix) {
+                Some(n) => BigInt::from(n),
+                None => return Err(self.error_unexpected(self.pos)),
+            },
             None => return Err(Self::error_eof(self.pos)),
         };
         self.get()?;
         loop {
             match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
                 Some('_') => {}
-                _ => break,
+                Some(ch) => match ch.to_digit(radix) {
+                    Some(n) => val = val * radix + n,
+                    None if ch.is_ascii_digit() => {
+                        return Err(Self::error_parse("Invalid digit.", self.pos))
+                    }
+                    None => break,
+                },
+                None => break,
             }
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        match val.to_i64() {
+            Some(i) => Ok(self.new_numlit(i)),
+            None => Ok(self.new_bignumlit(val)),
+        }
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
@@ -1006,8 +1020,11 @@ impl<'a> Lexer<'a> {
             'v' => '\x0b',
             'x' => {
                 let c1 = self.expect_hex()?;
-                let c2 = self.expect_hex()?;
-                match std::char::from_u32(c1 * 16 + c2) {
+                let code = match self.consume_hex() {
+                    Some(c2) => c1 * 16 + c2,
+                    None => c1,
+                };
+                match std::char::from_u32(code) {
                     Some(c) => c,
                     None => return Err(self.error_unexpected(self.pos)),
                 }
-- 
2.43.0


From 31b52260a4f2bc8add1e66cc5d10352f9905a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:46 +0000
Subject: [PATCH 53/57] fix: inspect of strings neither escapes apostrophes nor
 leaves interpolations and bytes unescaped; \u{...} and escaped delimiters in
 %q literals

---
 ruruby-parse/src/parser/lexer.rs | 19 +++++++++++++++++--
 ruruby/src/value/string.rs       | 20 ++++++++++++++++----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 7b4a52a..67baff4 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -845,8 +845,9 @@ impl<'a> Lexer<'a> {
                         continue;
                     };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
+                    if !escape_backslash && (c == term || open == Some(c)) || c == '\'' && term == c
+                    {
+                        s.push(c);
                     } else if c == '\\' {
                         s.push('\\');
                         if escape_backslash {
@@ -1031,6 +1032,20 @@ impl<'a> Lexer<'a> {
             }
             'u' => {
                 let mut code = 0;
+                if self.consume('{') {
+                    code = self.expect_hex()?;
+                    while let Some(digit) = self.consume_hex() {
+                        code = code * 16 + digit;
+                        if code > 0x10ffff {
+                            return Err(Self::error_parse("Invalid UTF-8 character.", self.pos));
+                        }
+                    }
+                    if !self.consume('}') {
+                        return Err(self.error_unexpected(self.pos));
+                    }
+                    return std::char::from_u32(code)
+                        .ok_or_else(|| Self::error_parse("Invalid UTF-8 character.", self.pos));
+                }
                 for _ in 0..4 {
                     code = code * 16 + self.expect_hex()?;
                 }
diff --git a/ruruby/src/value/string.rs b/ruruby/src/value/string.rs
index 6a020e7..4172d78 100644
--- a/ruruby/src/value/string.rs
+++ b/ruruby/src/value/string.rs
@@ -16,12 +16,14 @@ use std::fmt;
 impl fmt::Debug for RString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         fn write(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-            for ch in s.chars() {
+            let mut iter = s.chars().peekable();
+            while let Some(ch) = iter.next() {
                 match ch {
-                    c @ '\'' | c @ '"' | c @ '\\' => {
+                    c @ '"' | c @ '\\' => {
                         write!(f, "\\{}", c)?;
                     }
-                    c if '\x00' <= c && c <= '\x06' => write!(f, "\\x{:02}", c as u32)?,
+                    // would begin an interpolation.
+                    '#' if matches!(iter.peek(), Some('{' | '$' | '@')) => write!(f, "\\#")?,
                     '\x07' => write!(f, "\\a")?,
                     '\x08' => write!(f, "\\b")?,
                     '\x09' => write!(f, "\\t")?,
@@ -30,6 +32,7 @@ impl fmt::Debug for RString {
                     '\x0c' => write!(f, "\\f")?,
                     '\x0d' => write!(f, "\\r")?,
                     '\x1b' => write!(f, "\\e")?,
+                    c if c < ' ' || c == '\x7f' => write!(f, "\\x{:02X}", c as u32)?,
                     c => write!(f, "{}", c)?,
                 };
             }
@@ -38,7 +41,16 @@ impl fmt::Debug for RString {
         match self {
             RString::Str(s) => write(s, f),
             RString::SmallStr(s) => write(s, f),
-            RString::Bytes(v) => write!(f, "{}", String::from_utf8_lossy(v)),
+            RString::Bytes(v) => {
+                let mut rest = &v[..];
+                while let Err(err) = std::str::from_utf8(rest) {
+                    let (valid, invalid) = rest.split_at(err.valid_up_to());
+                    write(&String::from_utf8_lossy(valid), f)?;
+                    write!(f, "\\x{:02X}", invalid[0])?;
+                    rest = &invalid[1..];
+                }
+                write(&String::from_utf8_lossy(rest), f)
+            }
         }
     }
 }
-- 
2.43.0


From eeb5d05925b7ac02429de23dcfa7a28638a83b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:30 +0000
Subject: [PATCH 54/57] fix: puts adds no newline to text which ends with one;
 symbols of global variables

---
 ruruby-parse/src/parser/lexer.rs | 12 ++++++++++++
 ruruby/src/builtin/kernel.rs     |  5 ++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 67baff4..1236077 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -582,6 +582,18 @@ impl<'a> Lexer<'a> {
                     Loc(self.token_start_pos, self.pos),
                 )))
             }
+            '$' => {
+                self.consume('$');
+                let ch = self.get()?;
+                if !ch.is_ascii_alphabetic() && ch != '_' {
+                    return Err(self.error_unexpected(self.pos - ch.len_utf8()));
+                }
+                self.consume_ident();
+                Ok(Some((
+                    IdentId::get_id(self.current_slice()),
+                    Loc(self.token_start_pos, self.pos),
+                )))
+            }
             '\"' | '\'' => Ok(None),
             _ => self.read_method_name(true).map(Some),
         }
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 9beaf21..18a7edf 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -39,7 +39,10 @@ pub(crate) fn init(globals: &mut Globals) -> Module {
 fn puts(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     fn flatten(vm: &mut VM, val: Value, outer: &mut Vec<u64>) -> Result<(), RubyError> {
         match val.as_array() {
-            None => println!("{}", val.val_to_s(vm)?),
+            None => {
+                let s = val.val_to_s(vm)?;
+                print!("{}{}", s, if s.ends_with('\n') { "" } else { "\n" });
+            }
             Some(_) if outer.contains(&val.id()) => println!("[...]"),
             Some(aref) => {
                 outer.push(val.id());
-- 
2.43.0


From 3538b3ceaae45171142c2e05c1f828561850e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:18 +0000
Subject: [PATCH 55/57] fix: failed files can be required again, load does not
 count as require, paths with dots and explicit relative paths, LoadError of
 missing files

---
 ruruby/src/builtin/kernel.rs     | 10 ++++--
 ruruby/src/globals.rs            |  4 +++
 ruruby/src/vm/executor.rs        |  2 +-
 ruruby/src/vm/executor/loader.rs | 60 ++++++++++++++++++++++++--------
 4 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 18a7edf..ce5b63f 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -152,7 +152,7 @@ fn require_relative(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
             path.push(p);
         }
     }
-    path.set_extension("rb");
+    let path = crate::vm::loader::with_extension(path, "rb");
     Ok(Value::bool(vm.load_exec(&path, false)?))
 }
 
@@ -163,7 +163,9 @@ fn load(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::argument("file name must be a string.")),
     };
     let path = PathBuf::from(file_name);
-    if path.exists() {
+    let explicit =
+        path.is_absolute() || file_name.starts_with("./") || file_name.starts_with("../");
+    if explicit && path.exists() {
         vm.load_exec(&path, true)?;
         return Ok(Value::true_val());
     }
@@ -182,6 +184,10 @@ fn load(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
             return Ok(Value::true_val());
         }
     }
+    if path.exists() {
+        vm.load_exec(&path, true)?;
+        return Ok(Value::true_val());
+    }
     Err(RubyError::load(format!(
         "Can not load such file -- {:?}",
         file_name
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index f7e8e3c..069ca56 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -205,6 +205,10 @@ impl Globals {
         }
     }
 
+    pub(crate) fn remove_source_file(&mut self, file_path: &Path) {
+        self.source_files.retain(|path| path != file_path);
+    }
+
     pub(crate) fn from_exception(&self, err: &RubyError) -> Option<Value> {
         let err = err.clone();
         let val = match &err.kind {
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 6dc7ab4..9a6348a 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -10,7 +10,7 @@ use std::path::PathBuf;
 mod constants;
 mod fiber;
 pub mod frame;
-mod loader;
+pub(crate) mod loader;
 mod method;
 mod ops;
 mod opt_core;
diff --git a/ruruby/src/vm/executor/loader.rs b/ruruby/src/vm/executor/loader.rs
index 1475d56..a67c396 100644
--- a/ruruby/src/vm/executor/loader.rs
+++ b/ruruby/src/vm/executor/loader.rs
@@ -18,17 +18,24 @@ impl VM {
     }
 
     pub(crate) fn require(&mut self, file_name: &str) -> Result<bool, RubyError> {
-        let mut path = PathBuf::from(file_name);
-        if path.is_absolute() {
-            path.set_extension("rb");
+        // Absolute paths and paths relative to the current directory are not searched for.
+        let explicit = Path::new(file_name).is_absolute()
+            || file_name.starts_with("./")
+            || file_name.starts_with("../");
+        if explicit {
+            let path = with_extension(file_name, "rb");
             if path.exists() {
                 return self.load_exec(&path, false);
             }
-            path.set_extension("so");
+            let path = with_extension(file_name, "so");
             if path.exists() {
                 eprintln!("Warning: currently, can not require .so file. {:?}", path);
                 return Ok(false);
             }
+            return Err(RubyError::load(format!(
+                "Can not load such file -- {:?}",
+                file_name
+            )));
         }
         let load_path = match self.get_global_var(IdentId::get_id("$:")) {
             Some(path) => path,
@@ -36,13 +43,12 @@ impl VM {
         };
         let mut ainfo = load_path.expect_array("LOAD_PATH($:)")?;
         for path in ainfo.iter_mut() {
-            let mut base_path = PathBuf::from(path.expect_string("LOAD_PATH($:)")?);
-            base_path.push(file_name);
-            base_path.set_extension("rb");
+            let load_path = PathBuf::from(path.expect_string("LOAD_PATH($:)")?);
+            let base_path = load_path.join(with_extension(file_name, "rb"));
             if base_path.exists() {
                 return self.load_exec(&base_path, false);
             }
-            base_path.set_extension("so");
+            let base_path = load_path.join(with_extension(file_name, "so"));
             if base_path.exists() {
                 eprintln!(
                     "Warning: currently, can not require .so file. {:?}",
@@ -65,17 +71,43 @@ impl VM {
             Ok(path) => path,
             Err(ioerr) => {
                 let msg = format!("File not found. {:?}\n{}", path, ioerr);
-                return Err(RubyError::runtime(msg));
+                return Err(RubyError::load(msg));
             }
         };
-        let res = self.globals.add_source_file(&absolute_path);
-        if !allow_repeat && res.is_none() {
+        // Files are required only once, while they may be loaded again and again.
+        if !allow_repeat && self.globals.add_source_file(&absolute_path).is_none() {
             return Ok(false);
         }
-        let program = self.load_file(&absolute_path)?;
-        self.run(absolute_path, program)?;
-        Ok(true)
+        let res = match load_file(&absolute_path) {
+            Ok(program) => self.run(absolute_path.clone(), program),
+            Err(err) => Err(RubyError::load(format!(
+                "Cannot open file. '{:?}'\n{}",
+                absolute_path, err
+            ))),
+        };
+        match res {
+            Ok(_) => Ok(true),
+            Err(err) => {
+                if !allow_repeat {
+                    // A file which failed can be required again.
+                    self.globals.remove_source_file(&absolute_path);
+                }
+                Err(err)
+            }
+        }
+    }
+}
+
+/// The path which `file_name` names, with the extension `ext` added if it is not there.
+pub(crate) fn with_extension(file_name: impl AsRef<Path>, ext: &str) -> PathBuf {
+    let path = file_name.as_ref();
+    if path.extension().map_or(false, |e| e == ext) {
+        return path.to_path_buf();
     }
+    let mut name = path.as_os_str().to_os_string();
+    name.push(".");
+    name.push(ext);
+    PathBuf::from(name)
 }
 
 pub(crate) fn load_file(path: &Path) -> Result<String, String> {
-- 
2.43.0


From 80260cebb580c8f1d1fa935faf870e2b3ed6501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:35 +0000
Subject: [PATCH 56/57] fix: defined? and const_defined? do not load the files
 of autoloaded constants

---
 ruruby/src/builtin/module.rs        |  2 +-
 ruruby/src/value/class.rs           |  4 +++
 ruruby/src/vm/executor/constants.rs | 46 +++++++++++++++++++++++++++++
 ruruby/src/vm/executor/opt_core.rs  |  4 +--
 4 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 661c9cc..f43cbaa 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -228,7 +228,7 @@ fn const_defined(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let name = vm[0].expect_string_or_symbol("1st arg")?;
     Ok(Value::bool(
-        vm.get_super_const(Module::new(self_val), name).is_ok(),
+        vm.has_super_const(Module::new(self_val), name),
     ))
 }
 
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 1945d13..94e682e 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -691,6 +691,10 @@ impl ClassInfo {
         self.ext.get_mut_const(id)
     }
 
+    pub(crate) fn has_const(&self, id: IdentId) -> bool {
+        self.ext.const_table.contains_key(&id)
+    }
+
     pub(crate) fn get_const_noautoload(&mut self, id: IdentId) -> Option<Value> {
         match self.ext.get_mut_const(id) {
             Some(ConstEntry::Value(v)) => Some(*v),
diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index 3272e80..ee9badf 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -24,6 +24,22 @@ impl VM {
         }
     }
 
+    /// Whether get_super_const() would look at a constant `id`. Nothing is loaded.
+    pub(crate) fn has_super_const(&self, mut class: Module, id: IdentId) -> bool {
+        let mut is_module = class.is_module();
+        while !class.has_const(id) {
+            match class.upper() {
+                Some(upper) => class = upper,
+                None if is_module => {
+                    is_module = false;
+                    class = self.globals.classes.object;
+                }
+                None => return false,
+            }
+        }
+        true
+    }
+
     /// Enumerate constants of caller context.
     pub(crate) fn enumerate_const(&self) -> Vec<IdentId> {
         let mut map = FxHashSet::default();
@@ -77,6 +93,36 @@ impl VM {
         }
     }
 
+    /// Whether find_const() would look at a constant `id`. Nothing is loaded.
+    pub(super) fn has_const(&self, id: IdentId) -> bool {
+        let class_defined = &self.get_method_iseq().class_defined;
+        if class_defined.iter().any(|m| m.has_const(id)) {
+            return true;
+        }
+        let class = match class_defined.last() {
+            Some(class) => *class,
+            None => self.globals.classes.object,
+        };
+        self.has_super_const(class, id)
+    }
+
+    /// Whether get_scope() would look at a constant `id`. Nothing is loaded.
+    pub(super) fn has_scope(&self, parent: Module, id: IdentId) -> bool {
+        let object = self.globals.classes.object;
+        let mut class = parent;
+        while !class.has_const(id) {
+            match class.upper() {
+                Some(upper)
+                    if parent.id() == object.id() || upper.real_module().id() != object.id() =>
+                {
+                    class = upper
+                }
+                _ => return false,
+            }
+        }
+        true
+    }
+
     /// Search lexical class stack for a constant `id`.
     /// If the constant was found, returns Ok(Some(Value)), and if not, returns Ok(None).
     /// Returns error if an autoload failed.
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 635a4be..a29a61f 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -256,7 +256,7 @@ impl VM {
                     }
                     Inst::CHECK_CONST => {
                         let id = self.pc.read_id();
-                        let is_undef = self.find_const(id).is_err();
+                        let is_undef = !self.has_const(id);
                         self.stack_push(Value::bool(is_undef));
                     }
                     Inst::GET_CONST => {
@@ -282,7 +282,7 @@ impl VM {
                         let parent = self.stack_pop();
                         let id = self.pc.read_id();
                         let is_undef = match parent.expect_mod_class() {
-                            Ok(parent) => self.get_scope(parent, id).is_err(),
+                            Ok(parent) => !self.has_scope(parent, id),
                             Err(_) => true,
                         };
                         self.stack_push(Value::bool(is_undef));
-- 
2.43.0


From 26e04d3c8a53f0aa3ffffbe435476186cf4aabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:17 +0000
Subject: [PATCH 57/57] fix: load does not search for explicit relative paths

---
 ruruby/src/builtin/kernel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index ce5b63f..3d1091a 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -165,7 +165,7 @@ fn load(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     let path = PathBuf::from(file_name);
     let explicit =
         path.is_absolute() || file_name.starts_with("./") || file_name.starts_with("../");
-    if explicit && path.exists() {
+    if explicit {
         vm.load_exec(&path, true)?;
         return Ok(Value::true_val());
     }
-- 
2.43.0

