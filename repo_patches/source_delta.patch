From 5cdf325f2d22ee3cc18860adc3373f2685c98536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 1/4] fix: always recompute the location of a context

Ctx.update_loc compared a stream position with Loc.pos to skip the update.
The two are different things for token streams (Loc.pos is an offset in the
source text), so block/aligned/indented could use a stale column.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From f7c57a902d9030eedecd25875e4ed63c58f1fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 2/4] fix: keep expected values when recover_with replaces an
 error

recover_with and recover_with_fn dropped the expected values of the failed
parser, so the error was reported as 'unexpected input' when no repair of the
whole input was found, and by outer recover_with.
---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0


From b475cfb3d2cde1a8b9f56076544cb4c5f6618455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 3/4] fix: raise LexError instead of looping on an empty lexer
 match

---
 src/reparsec/lexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..c457efe 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -61,6 +61,9 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
             raise LexError(loc)
 
         end = match.end()
+        if end == pos:
+            raise LexError(loc)
+
         nl = src.count("\n", pos, end)
         if nl:
             line += nl
-- 
2.43.0


From e91ae8b021c065d49fec252864dac0f981a40efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 4/4] fix: many keeps what the last item could have continued
 with

The descriptions of optional parts that end an item of many() were
dropped from the error that follows the last item, while they are
reported after a single item and after a repaired one.
---
 src/reparsec/core/combinators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index cce3daa..f75a4a0 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -327,6 +327,7 @@ def _many_fast(parse_fns: ParseFns[S, A]) -> ParseFastFn[S, List[A]]:
     def many(stream: S, pos: int, ctx: Ctx[S]) -> SimpleResult[List[A], S]:
         consumed = False
         value: List[A] = []
+        expected: Iterable[str] = ()
         r = parse_fn(stream, pos, ctx)
         while type(r) is Ok:
             if not r.consumed:
@@ -335,10 +336,11 @@ def _many_fast(parse_fns: ParseFns[S, A]) -> ParseFastFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
+            expected = r.expected
             r = parse_fn(stream, pos, ctx)
         if r.consumed:
             return r
-        return Ok(value, pos, ctx, r.expected, consumed)
+        return Ok(value, pos, ctx, Append(expected, r.expected), consumed)
 
     return many
 
@@ -351,6 +353,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             rem: Optional[int]) -> Result[List[A], S]:
         consumed = False
         value: List[A] = []
+        expected: Iterable[str] = ()
         r = parse_fn(stream, pos, ctx, ins, None)
         while type(r) is Ok:
             if not r.consumed:
@@ -359,6 +362,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
+            expected = r.expected
             r = parse_fn(stream, pos, ctx, ins, None)
         if type(r) is Recovered:
             return continue_parse(
@@ -367,7 +371,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             )
         if r.consumed:
             return r
-        return Ok(value, pos, ctx, r.expected, consumed)
+        return Ok(value, pos, ctx, Append(expected, r.expected), consumed)
 
     return many
 
-- 
2.43.0

