From ab957557d60f3bb92124336fc195d83025fffc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:51 +0000
Subject: [PATCH 1/6] fix: refuse negative bucket indices in Histogram.encode

A negative measurement selected a bucket counted from the end of the
vector, so an out-of-range measurement was sharded into a valid report.
---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b1273ef..b0059c8 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -729,6 +729,8 @@ class Histogram(Valid[int, list[int], F]):
         self.JOINT_RAND_LEN = self.GADGET_CALLS[0]
 
     def encode(self, measurement: int) -> list[F]:
+        if measurement not in range(self.length):  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
         encoded = [self.field(0)] * self.length
         encoded[measurement] = self.field(1)
         return encoded
-- 
2.43.0


From 227c72323cb3afab61bee9a79f3221ac73d82775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:51 +0000
Subject: [PATCH 2/6] fix: refuse negative measurements in Sum.encode

A negative measurement was encoded as the low bits of its two's
complement, so an out-of-range measurement was sharded into a valid
report for a different value.
---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b0059c8..ef20d70 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1109,6 +1109,8 @@ class Sum(Valid[int, int, F]):
         self.EVAL_OUTPUT_LEN = self.bits
 
     def encode(self, measurement: int) -> list[F]:
+        if measurement < 0:  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
         return encode_range_checked_int(
             self.field,
             measurement,
-- 
2.43.0


From c97c64cefa36931d18cf488ec47ca18f3fcc6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:51 +0000
Subject: [PATCH 3/6] fix: refuse a non-empty Prio3 public share without joint
 randomness

The public share of such an instance is the empty string. Any other
string was decoded as if it were empty.
---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index 40f14f6..f144848 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -573,6 +573,8 @@ class Prio3(
 
     def decode_public_share(self, encoded: bytes) -> Optional[list[bytes]]:
         if self.flp.JOINT_RAND_LEN == 0:
+            if len(encoded) != 0:
+                raise ValueError("public share is too long")
             return None
         joint_rand_parts = []
         for _ in range(self.SHARES):
-- 
2.43.0


From d173a5a911ff350136f4ab562594a8817aebee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:59 +0000
Subject: [PATCH 4/6] fix: recover zero from Shamir shares that are all zero

If all shares of an element are zero, for example because no report was
aggregated, interpolation gives the zero polynomial, which has no
coefficients. Reading the constant term raised IndexError.
---
 poc/example_flp_shamir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poc/example_flp_shamir.py b/poc/example_flp_shamir.py
index 3ec975c..b43b144 100644
--- a/poc/example_flp_shamir.py
+++ b/poc/example_flp_shamir.py
@@ -80,7 +80,8 @@ def shamir_unshard(field: type[F],
             xs.append(x)
             fs.append(f)
         coeffs = poly_interp(field, xs, fs)
-        meas.append(coeffs[0])
+        # The zero polynomial has no coefficients.
+        meas.append(coeffs[0] if len(coeffs) > 0 else field(0))
     return meas
 
 
-- 
2.43.0


From f574b2c8571082f9900dbe5393430df98d9105b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:44 +0000
Subject: [PATCH 5/6] fix: refuse to set up Prio3 with no proofs

A Prio3 instance with zero proofs checked nothing and accepted every
report.  The number of proofs is documented to be between 1 and 255.
---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index f144848..cd770f6 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -76,6 +76,8 @@ class Prio3(
         assert flp is not None
         if shares not in range(2, 256):
             raise ValueError('invalid number of shares')
+        if num_proofs not in range(1, 256):
+            raise ValueError('invalid number of proofs')
 
         self.SHARES = shares
         self.PROOFS = num_proofs
-- 
2.43.0


From eaecadffdd0ad91d27643490eca196d4437a2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:44 +0000
Subject: [PATCH 6/6] fix: refuse to combine too few or too many Prio3 verifier
 shares

Without joint randomness an empty list of verifier shares combined to an
all-zero verifier, which passes every check, so that any report was
accepted.  Poplar1 already refuses the wrong number of shares.
---
 poc/vdaf_poc/vdaf_prio3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index cd770f6..6412f12 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -192,6 +192,10 @@ class Prio3(
         _agg_param: None,
         verifier_shares: list[Prio3VerifierShare[F]],
     ) -> Optional[bytes]:
+        # REMOVE ME
+        if len(verifier_shares) != self.SHARES:
+            raise ValueError('incorrect number of verifier shares')
+
         # Unshard each set of verifier shares into each verifier message.
         verifiers = self.flp.field.zeros(
             self.flp.VERIFIER_LEN * self.PROOFS)
-- 
2.43.0

